"""Concurrent computation: no data race, no lost, repeated or mixed-up piece of work."""
from common import *
from emit import body_of, loops_of, counter, bound_of, lvs

LEVEL = 'other'
RULE = ('In the flow graphs of the code which creates threads, of every thread body and of every job handed to a pool: each '
        'access to data shared between them happens while the mutex of the same object is held; the counter of the starter and the '
        'vectors it numbers change in one critical section; every wait is for a condition on guarded data, re-tested after waking, '
        'that some other thread makes true and then signals; elements are removed from a queue only after it was found non-empty in '
        'the same critical section, and each removed element is returned; a queue is closed only when its last producer leaves; '
        'all threads are joined, after closing, before results are used; every vector is computed once and stored at its own index.')
EXPLAIN = 'Lock-state dataflow and path queries on the inlined graphs of all thread bodies and jobs.'
ASSUME = ['the mutexes, condition variables and threads of the standard library', 'progress callbacks are thread-safe']

SYNC = ('std::mutex', 'std::recursive_mutex', 'std::condition_variable', 'std::condition_variable_any', 'std::atomic', 'std::thread')


# ------------------------------------------------------------------------------------------------ lock state
def lockstate(g):
    """mutexes certainly held when a node is executed"""
    st = {g.entry.id: frozenset()}
    work = [g.entry]
    while work:
        n = work.pop()
        s = st[n.id]
        if n.kind == 'lock':
            s = s | {n.mutex}
        elif n.kind == 'unlock':
            s = s - {n.mutex}
        for m, _ in n.succ:
            o = st.get(m.id)
            v = s if o is None else o & s
            if v != o:
                st[m.id] = v
                work.append(m)
    return st


def root_of(p):
    while isinstance(p, T) and p.op in PLACE_OPS and p.op != 'root':
        p = p.a[0]
    return p


def own(p, base):
    """does the place live in an object created by the thread body itself?"""
    x = p
    while isinstance(x, T) and x.op in PLACE_OPS and x.op != 'root':
        if x.op == 'deref':
            y = x.a[0]
            return own(y, base) if y.op in PLACE_OPS else y.op in ('call', 'default', 'obj', 'zero', 'var', 'lv')
        x = x.a[0]
    if x.op == 'lv':
        y = x.a[1] if len(x.a) > 1 and isinstance(x.a[1], T) else None
        return own(y, base) if y is not None else True
    if x.op != 'root':
        return True
    if x.a[0] in ('this', 'param', 'glob', 'cap', 'unkvar'):
        return x.a[0] == 'param'
    return isinstance(x.a[1], int) and x.a[1] > base


def prefixes(p):
    out = set()
    while isinstance(p, T) and p.op in PLACE_OPS:
        out.add(p)
        if p.op == 'root':
            break
        p = p.a[0]
    return out


def protects(mutex, place):
    """do mutex and place belong to the same object?"""
    m = mutex
    while m.op == 'deref':
        m = m.a[0]
    if m.op != 'fld':
        return root_of(m) is root_of(place) and m.op == 'root' and False
    return m.a[0] in prefixes(place)


def unlv(t):
    """the place a loop value stands for"""
    while isinstance(t, T) and t.op == 'lv' and len(t.a) > 1 and isinstance(t.a[1], T):
        t = t.a[1]
    return t


def norm(p):
    """place with loop values replaced by what they stand for, indices dropped"""
    if not isinstance(p, T):
        return p
    if p.op == 'lv':
        q = unlv(p)
        return norm(q) if q is not p else p
    if p.op == 'fld':
        return mk('fld', norm(p.a[0]), *p.a[1:])
    if p.op in ('deref',):
        return mk('deref', norm(p.a[0]))
    if p.op in ('elem', 'sub', 'alt'):
        return norm(p.a[0])
    return p


class Body:
    """a piece of code that runs in some thread"""
    def __init__(self, name, g, w, base, main=False):
        self.name, self.g, self.w, self.base, self.main = name, g, w, base, main
        self.ls = lockstate(g)


def jobs_of(g):
    """closures stored into a container (the queue of a pool): (node, closure)"""
    for n in g.nodes:
        if n.kind in ('mut', 'write'):
            for a in (n.args if n.kind == 'mut' else (n.value,)):
                if isinstance(a, T):
                    for x in subterms(a):
                        if x.op == 'clos' and n.get('place') is not None and n.kind == 'mut':
                            yield n, x


def bodies(P, fn):
    w = Walker(P)
    g = w.run(fn)
    out = [Body('main', g, w, -1, True)]
    todo = [(n, n.fn, 'thread') for n in g.nodes if n.kind == 'spawn' and n.fn.op == 'clos'] + \
           [(n, c, 'job') for n, c in jobs_of(g)]
    seen = set()
    for n, c, k in todo:
        if c in seen or c not in w.clos:
            continue
        seen.add(c)
        w2 = Walker(P)
        g2 = w2.run_clos(w, c)
        if g2 is not None:
            b = Body('%s created at %s' % (k, n.loc()), g2, w2, w.uid + 100000 - 1)
            b.kind, b.made = k, n
            out.append(b)
    return out


# ------------------------------------------------------------------------------------------------ shared data
def is_sync(P, p):
    return False


def shared_writes(b):
    for n in b.g.nodes:
        if n.kind in ('write', 'mut') and isinstance(n.get('place'), T) and not own(n.place, b.base):
            if n.kind == 'mut' and n.method in ('fetch_add', 'fetch_sub', 'store', 'exchange', 'compare_exchange_strong',
                                                'compare_exchange_weak'):
                continue
            yield n, norm(n.place)


def mentions(n):
    """terms evaluated at a node"""
    k = n.kind
    if k == 'branch':
        return [n.cond]
    if k == 'init':
        return [n.value]
    if k == 'write':
        return [n.value] + idx_terms(n.place)
    if k in ('mut', 'usercall', 'call'):
        return [a for a in n.args if isinstance(a, T)]
    if k in ('exit', 'leave') and isinstance(n.get('ret'), T) and not any(x.op in ('sel', 'phi') for x in subterms(n.ret)):
        return [n.ret]
    return []


def idx_terms(p):
    out = []
    while isinstance(p, T) and p.op in PLACE_OPS and p.op != 'root':
        out += [x for x in p.a[1:] if isinstance(x, T)]
        p = p.a[0]
    return out


def reads(t, base):
    """maximal places of shared objects read by a term"""
    out, st = set(), [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in PLACE_OPS and x.op != 'root':
            if not own(x, base):
                out.add(x)
            st += idx_terms(x)
            continue
        if x.op in ('clos', 'sel', 'phi'):
            # the parts of a conditional value were read where its branches were taken
            continue
        if x.op == 'lv':
            p = unlv(x)
            if p is not x and p.op in PLACE_OPS and not own(p, base):
                out.add(p)
            continue
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                st += [z for z in y if isinstance(z, T)]
    return out


def discipline(P, R, bs, title):
    conc = [b for b in bs if not b.main]
    # places written by concurrently running bodies
    W = {}
    for b in conc:
        for n, p in shared_writes(b):
            W.setdefault(p, []).append((b, n))
    main = bs[0]
    live = concurrent_nodes(main)
    for n, p in shared_writes(main):
        pass
    for n in main.g.nodes:
        if n.id in live and n.kind in ('write', 'mut') and isinstance(n.get('place'), T):
            p = norm(n.place)
            if p in W or any(q in W for q in prefixes(p)):
                W.setdefault(p, []).append((main, n))
    nacc = 0
    for p, l in sorted(W.items(), key=lambda x: show(x[0])):
        bad = None
        ms = None
        for b, n in l:
            held = set(norm(m) for m in b.ls.get(n.id, ()))
            nacc += 1
            ok = set(m for m in held if protects(m, p))
            if not ok:
                other = held
                if not other:
                    bad = bad or (b, n, 'without holding a lock')
                else:
                    ms = other if ms is None else ms & other
                    if not ms:
                        bad = bad or (b, n, 'under a lock that does not protect it elsewhere')
            else:
                ms = ok if ms is None else ms & ok
                if not ms:
                    bad = bad or (b, n, 'under a different lock than elsewhere')
        if bad:
            b, n, how = bad
            R.bad('%s: write of %s' % (title, role(p)), '%s is shared between threads and written %s (%s)' % (show(p)[:80], how, b.name), [n.where()])
        else:
            R.ok('%s: writes of %s are protected' % (title, role(p)))
        # reads
        for b in bs:
            g = b.g
            firsts = {}
            for n in g.nodes:
                if b.main and n.id not in live:
                    continue
                for t in mentions(n):
                    for q in reads(t, b.base):
                        if norm(q) is p or p in prefixes(norm(q)):
                            held = set(norm(m) for m in b.ls.get(n.id, ()))
                            good = any(protects(m, p) for m in held) or (ms and held & ms)
                            firsts.setdefault(q, []).append((n, good))
            for q, ns in firsts.items():
                nacc += 1
                good = [n for n, k in ns if k]
                for n, k in ns:
                    if k:
                        continue
                    # the value was read earlier, under the lock?
                    path = Search(g).find([g.entry], goal=lambda m: m is n, avoid=lambda m: m in good)
                    if path is not None:
                        R.bad('%s: read of %s' % (title, role(p)), '%s is written by other threads and read without the lock (%s)' % (
                            show(q)[:80], b.name), [n.where()])
                        break
    R.count('shared_places', len(W))
    R.count('shared_accesses', nacc)
    if not W:
        R.unknown('%s: no shared data found' % title)
    return W


def role(p):
    r, path = fld_path(p)
    return '.'.join(x for x in path if x not in ('*', '[]'))[:60] or 'variable'


def concurrent_nodes(b):
    """nodes of the creating function between the first spawn and the last join"""
    g = b.g
    sp = [n for n in g.nodes if n.kind == 'spawn']
    jn = [n for n in g.nodes if n.kind == 'thread' and n.op == 'join']
    fwd = reachable(sp)
    back = reachable(jn, succ='pred') | set(n.id for n in jn)
    return fwd & back


# ------------------------------------------------------------------------------------------------ stateful callables
def callables(P, R, bs, title):
    """function objects stored next to a mutex are called with that mutex held"""
    recs = {}
    for r in P.recs.values():
        if any(f['t'] is not None and 'mutex' in (f['t'].s or '') for f in r.fields):
            recs[r.short] = r
    names = set(f['n'] if 'n' in f else f.get('name') for r in recs.values() for f in r.fields
                if f['t'] is not None and 'function' in (f['t'].s or ''))
    for b in bs:
        if b.main:
            continue
        for n in b.g.nodes:
            if n.kind == 'usercall' and isinstance(n.callee, T):
                c = norm(n.callee)
                if c.op == 'fld' and c.a[1] in names and not own(c, b.base):
                    held = set(norm(m) for m in b.ls.get(n.id, ()))
                    if any(protects(m, c) for m in held):
                        R.ok('%s: call of %s under its lock' % (title, c.a[1]))
                    else:
                        R.bad('%s: call of %s' % (title, c.a[1]), 'a function object with state shared between threads is called without the '
                              'lock of its owner (%s)' % b.name, [n.where()])


def numbering(P, R, bs, title):
    """the number of a vector is taken in the critical section that produces the vector"""
    for b in bs:
        if b.main or getattr(b, 'kind', '') != 'job':
            continue
        g = b.g
        calls = [n for n in g.nodes if n.kind == 'usercall' and isinstance(n.callee, T) and not own(n.callee, b.base) and
                 b.ls.get(n.id)]
        makers = [n for n in calls if len(n.args) == 1]
        sinks = [n for n in calls if len(n.args) == 4]
        if not makers or not sinks:
            R.unknown('%s: producer and collector of vectors not recognised (%s)' % (title, b.name))
            continue
        mk_ = makers[0]
        mut = [m for m in b.ls[mk_.id]]
        cnts = [n for n in g.nodes if n.kind == 'write' and not own(n.place, b.base) and
                any(protects(m, n.place) for m in mut)]
        if not cnts:
            pl = [sk for sk in sinks if sk.args[2].op == 'fld' and not own(sk.args[2], b.base)]
            if pl and not any(n.kind == 'write' and norm(n.place) is norm(pl[0].args[2]) for n in b.g.nodes):
                R.bad('%s: number of a vector' % title, 'the number of a vector is taken from %s, which never advances' % show(pl[0].args[2])[:60],
                      [pl[0].where()])
            else:
                R.unknown('%s: counter of vectors not recognised (%s)' % (title, b.name))
            continue
        cp = norm(cnts[0].place)
        # cnt grows by the number of vectors made
        tot = None
        for n in cnts:
            d = ADD(n.value, MUL(cint(-1), n.place)) if n.value is not None else None
            tot = d if tot is None else ADD(tot, d)
        for sk in sinks:
            idx = sk.args[2]
            if idx is cp:
                R.ok('%s: number handed to the collector is the starter\'s count before the vector was made (%s)' % (title, b.name))
            elif any(x is cp for x in subterms(idx)):
                d = ADD(idx, MUL(cint(-1), cp))
                if is_const(d):
                    R.bad('%s: number of a vector' % title, 'the collector gets %s as the number of the vector, which is the count of vectors '
                          'made before it plus %s' % (show(idx)[:60], show(d)), [sk.where()])
                else:
                    R.unknown('%s: number of a vector: %s' % (title, show(idx)[:80]))
            elif is_const(idx):
                R.bad('%s: number of a vector' % title, 'the collector gets the constant %s as the number of the vector' % show(idx), [sk.where()])
            else:
                R.unknown('%s: number of a vector: %s' % (title, show(idx)[:80]))
        # same critical section
        first = [n for n in g.nodes if n.kind in ('init', 'write') and any(norm(q) is cp for t in mentions(n) for q in reads(t, b.base))
                 and n not in cnts]
        firsts = [n for n in first if Search(g).find([g.entry], goal=lambda m: m is n, avoid=lambda m: m in first and m is not n)]
        rel = [n for n in g.nodes if n.kind == 'unlock' and any(norm(n.mutex) is norm(m) for m in mut)]
        for f in firsts[:1]:
            direct = Search(g).find([f], goal=lambda m: m in makers, avoid=lambda m: m in rel)
            if direct is None and f.id != mk_.id and Search(g).find([f], goal=lambda m: m in makers):
                R.bad('%s: numbering' % title, 'the lock is released between taking the number of a vector and making it: two threads can get the '
                      'same number', [f.where(), mk_.where()])
            else:
                R.ok('%s: a vector and its number come from one critical section (%s)' % (title, b.name))
        for f in cnts:
            p1 = Search(g).find([f], goal=lambda m: m in makers, avoid=lambda m: m in rel)
            p2 = Search(g).find(makers, goal=lambda m: m is f, avoid=lambda m: m in rel)
            if not p1 and not p2:
                R.bad('%s: numbering' % title, 'the count of vectors is advanced outside the critical section that makes the vector', [f.where()])
        # the count advances by the number of vectors in this job
        inloop = [h for h in loops_of(g, mk_)]
        d = ADD(cnts[0].value, MUL(cint(-1), cp))
        if len(cnts) == 1:
            num = None
            if not inloop:
                num = cint(1)
            elif len(inloop) == 1:
                h = inloop[0]
                for lv in set(x for n in g.nodes if n.id in body_of(g, h) for t in mentions(n) for x in subterms(t) if x.op == 'lv' and x.a[0] == h.lid):
                    if counter(b.w, lv) is cint(0):
                        for t in bound_of(g, h, lv):
                            num = t
            if loops_of(g, cnts[0]):
                # advanced once per vector
                if loops_of(g, cnts[0]) == inloop and d is not cint(1):
                    nd = cnts[0].value
                    if nd.op == 'add' and is_const(ADD(nd, MUL(cint(-1), next((x for x in subterms(nd) if x.op == 'lv'), nd)))) and \
                            ADD(nd, MUL(cint(-1), next((x for x in subterms(nd) if x.op == 'lv'), nd))) is not cint(1):
                        R.bad('%s: count of vectors' % title, 'the count of vectors does not advance by one per vector', [cnts[0].where()])
            elif num is None:
                R.unknown('%s: number of vectors made by a job (%s)' % (title, b.name))
            elif d is num:
                R.ok('%s: the count advances by the number of vectors made (%s)' % (title, b.name))
            elif is_const(d) and is_const(num) or d.op in ('fld', 'root', 'deref') and num.op in ('fld', 'root', 'deref'):
                R.bad('%s: count of vectors' % title, 'the count advances by %s but %s vectors are made (%s)' % (show(d), show(num), b.name),
                      [cnts[0].where()])
            else:
                R.unknown('%s: count advances by %s, vectors made: %s' % (title, show(d)[:50], show(num)[:50]))


# ------------------------------------------------------------------------------------------------ threads
def joined(P, R, bs, title):
    b = bs[0]
    g = b.g
    sp = [n for n in g.nodes if n.kind == 'spawn']
    jn = [n for n in g.nodes if n.kind == 'thread' and n.op in ('join',)]
    if not sp:
        return
    for s in sp:
        # where the thread is stored
        tgt = None
        for n in g.nodes:
            if n.kind in ('write', 'init', 'mut') and n.id > s.id:
                v = [n.value] if n.kind != 'mut' else [a for a in n.args if isinstance(a, T)]
                if any(x.op == 'thread' and x.a[0] is s.fn or x is s.fn for t in v if isinstance(t, T) for x in subterms(t)):
                    tgt = norm(n.place)
                    break
        if tgt is None:
            R.unknown('%s: thread created at %s: not found again' % (title, s.loc()))
            continue
        js = [n for n in jn if norm(n.obj) is tgt]
        if not js:
            det = [n for n in g.nodes if n.kind == 'thread' and n.op == 'detach' and norm(n.obj) is tgt]
            if det:
                R.bad('%s: join' % title, 'a thread is detached instead of joined: it can still run when the function returns', [s.where(), det[0].where()])
            elif jn and any(root_of(norm(n.obj)) is root_of(tgt) for n in jn) or any(
                    n.kind == 'thread' and n.op not in ('join', 'operator=') for n in g.nodes):
                R.unknown('%s: join of the thread created at %s' % (title, s.loc()))
            else:
                R.bad('%s: join' % title, 'a thread is created and never joined', [s.where()])
            continue
        reps = set()
        for n in js:
            hs = loops_of(g, n)
            hs = [h for h in hs if s.id not in body_of(g, h)]
            reps.add(hs[-1].id if hs else n.id)
        ends = [n for n in g.nodes if n.kind in ('exit', 'exitthrow')]
        p = Search(g).find([s], goal=lambda n: n in ends, avoid=lambda n: n.id in reps)
        if p:
            R.bad('%s: join' % title, 'the function is left while a thread created at %s may still be running' % s.loc(), describe(p, 10))
        else:
            R.ok('%s: thread created at %s is joined on every path' % (title, s.loc()))
        for n in js:
            for h in loops_of(g, n):
                if s.id in body_of(g, h):
                    continue
                whole(R, b, g, h, n, '%s: all threads are joined' % title)


def whole(R, b, g, h, n, key):
    """the loop h visits a whole container and executes n in each iteration"""
    lv = [x for t in ([n.obj] if n.kind == 'thread' else mentions(n)) for x in subterms(t) if x.op == 'lv' and x.a[0] == h.lid]
    c = counter(b.w, lv[0]) if lv else None
    if c is None:
        R.unknown('%s: loop not recognised' % key)
        return
    if c is not cint(0):
        R.bad(key, 'the loop starts at %s' % show(c), [n.where()])
        return
    p = Search(g).find([h], goal=lambda m: m is h, avoid=lambda m: m is n)
    if p:
        R.bad(key, 'an iteration can skip it', [n.where()] + describe(p, 6))
        return
    bd = bound_of(g, h, lv[0])
    if not bd:
        R.unknown('%s: bound' % key)
    elif any(x.op in ('endpos', 'size') for x in bd):
        R.ok(key)
    else:
        x = bd[0]
        if x.op == 'add' and any(y.op == 'size' for y in x.a) and any(is_const(y) for y in x.a):
            R.bad(key, 'the loop ends before the last element', [n.where()])
        else:
            R.unknown('%s: bound %s' % (key, show(x)[:60]))
    # only left at its end
    body = body_of(g, h)
    out = [m for m in g.nodes if m.id in body and m.kind == 'branch' and any(s.id not in body for s, _ in m.succ)]
    if len(out) > 1 and not any(m.kind == 'maythrow' for m in out):
        R.bad(key, 'the loop can be left early', [m.where() for m in out])


# ------------------------------------------------------------------------------------------------ queues
def queue_graphs(P):
    """graphs of the methods of classes that own a mutex and condition variables"""
    out = {}
    for r in P.recs.values():
        ts = [f['t'].short or '' for f in r.fields if f['t'] is not None]
        if any(t.startswith('std::condition_variable') for t in ts):
            out.setdefault(r.short, [])
    users = {}
    for i, (c, t) in callgraph(P).items():
        for x in c:
            users.setdefault(x, set()).add(i)
    for cls in out:
        seen = {}
        for f in P.fns.values():
            d = f.decl
            if d is None or d.cls != cls or not d.method or d.ctor or d.dtor or f.b is None:
                continue
            k = (d.n, tuple((t.s or '')[-4:] for t in d.params if t.k in ('lref', 'rref')))
            k = (f.file, f.line)
            if k in seen:
                continue
            if any((t.s or '').startswith(('std::unique_lock', 'std::lock_guard', 'const std::unique_lock')) or 'unique_lock<' in (t.s or '') for t in d.params):
                continue    # works under the lock of its caller: analysed there
            us = [P.fns.get(i) for i in users.get(f.id, ())]
            if us and all(u is not None and u.decl is not None and u.decl.cls == cls for u in us):
                continue    # a helper: analysed where it is called
            seen[k] = f
        for f in sorted(seen.values(), key=lambda f: f.line):
            w = Walker(P)
            g = w.run(f)
            b = Body(f.qn, g, w, 0)
            b.fn = f
            out[cls].append(b)
    return out


def cond_of(b, n):
    """what must hold when the thread goes on after the wait: list of (term, polarity) alternatives (a disjunction)"""
    g = b.g
    ls = loops_of(g, n)
    if not ls:
        return None
    h = ls[0]
    body = body_of(g, h)
    alts = []
    for m in g.nodes:
        if m.kind == 'branch' and m.id in body:
            for s, lab in m.succ:
                if s.id not in body or not reaches(g, s, n, body):
                    alts.append((m.cond, lab))
    return alts or None


def reaches(g, s, n, body):
    if s is n:
        return True
    seen, st = set(), [s]
    while st:
        x = st.pop()
        if x is n:
            return True
        if x.id in seen or x.id not in body or x.kind == 'loop':
            continue
        seen.add(x.id)
        st += [m for m, _ in x.succ]
    return False


def queue_rules(P, R):
    cl = queue_graphs(P)
    for cls, bs in sorted(cl.items()):
        if not bs:
            continue
        T0 = cls.split('::')[-1]
        # guarded fields: those some method writes
        wr = {}
        for b in bs:
            for n in b.g.nodes:
                if n.kind in ('write', 'mut') and isinstance(n.get('place'), T):
                    f = of_this(n.place)
                    if f:
                        wr.setdefault(f[0], []).append((b, n))
        if not wr:
            R.unknown('%s: no state found' % cls)
            continue
        for b in bs:
            g = b.g
            for f, l in wr.items():
                for bb, n in l:
                    if bb is not b:
                        continue
                    if b.ls.get(n.id):
                        R.ok('%s::%s: write of %s under the lock' % (T0, b.fn.decl.n, f))
                    else:
                        R.bad('%s::%s: write of shared state' % (T0, b.fn.decl.n), '%s is written without holding the lock' % f, [n.where()])
            # reads
            ns = []
            for n in g.nodes:
                if n.kind in ('enter', 'leave') and n.kind == 'enter':
                    continue
                for t in mentions(n):
                    for x in subterms(t):
                        ff = of_this(x) if x.op in PLACE_OPS else None
                        if ff and ff[0] in wr:
                            ns.append((n, x, bool(b.ls.get(n.id))))
            for n, x, k in ns:
                if k:
                    continue
                good = [m for m, y, kk in ns if kk and y is x]
                if Search(g).find([g.entry], goal=lambda m: m is n, avoid=lambda m: m in good):
                    R.bad('%s::%s: read of shared state' % (T0, b.fn.decl.n), '%s is read without holding the lock' % show(x)[:60], [n.where()])
                    break
            else:
                R.ok('%s::%s: reads under the lock' % (T0, b.fn.decl.n))
        waits = []
        for b in bs:
            for n in b.g.nodes:
                if n.kind == 'wait':
                    alts = cond_of(b, n)
                    if alts is None:
                        R.bad('%s::%s: wait' % (T0, b.fn.decl.n), 'a thread waits without testing its condition again after waking up', [n.where()])
                        continue
                    waits.append((b, n, norm(n.cv), alts))
        # removal: non-empty established in the same critical section
        for b in bs:
            g = b.g
            for n in g.nodes:
                if n.kind == 'mut' and n.method in ('pop', 'pop_front', 'pop_back', 'erase', 'clear') and of_this(n.place):
                    loss = Search(g).find([g.entry], goal=lambda m: m is n,
                                          avoid_edge=lambda a, c, lab: nonempty(a, lab, n.place))
                    if loss:
                        R.bad('%s::%s: removal' % (T0, b.fn.decl.n), 'an element is removed from a queue which may be empty', [n.where()] + describe(loss, 8))
                        continue
                    R.ok('%s::%s: removal from a non-empty queue' % (T0, b.fn.decl.n))
                    rel = [m for m in g.nodes if m.kind in ('unlock', 'wait')]
                    # path unlock -> removal without a new test
                    p = Search(g).find(rel, goal=lambda m: m is n, avoid_edge=lambda a, c, lab: nonempty(a, lab, n.place)) if rel else None
                    if p:
                        R.bad('%s::%s: removal' % (T0, b.fn.decl.n), 'the lock is released between the test that the queue is not empty and the removal',
                              [n.where()] + describe(p, 8))
                    if n.method in ('pop', 'pop_front'):
                        elem_returned(R, b, n, T0)
                        rm = [m for m in g.nodes if m.kind == 'mut' and m.method == n.method and norm(m.place) is norm(n.place)]
                        p = Search(g).find([g.entry], goal=lambda m: m.kind == 'exit', avoid=lambda m: m in rm,
                                           avoid_edge=lambda a, c, lab: empty_edge(a, lab, n.place))
                        if p:
                            R.bad('%s::%s: end' % (T0, b.fn.decl.n), 'the queue is reported as finished although elements may still be in it', describe(p, 8))
                        else:
                            R.ok('%s::%s: nothing is returned only when the queue is empty' % (T0, b.fn.decl.n))
                        fl = set(boolfield(c) for wb, wn, cv, alts in waits if wb is b for c, lab in alts) - {None}
                        if len(fl) == 1:
                            f0 = list(fl)[0]
                            p = Search(g).find([g.entry], goal=lambda m: m.kind == 'exit', avoid=lambda m: m in rm,
                                               avoid_edge=lambda a, c, lab: a.kind == 'branch' and boolfield(a.cond) == f0)
                            if p:
                                R.bad('%s::%s: end' % (T0, b.fn.decl.n), 'the queue is reported as finished although it has not been closed', describe(p, 8))
        # notifications
        for b, wn, cv, alts in waits:
            for c, lab in alts:
                add = [n for n in b.g.nodes if n.kind == 'mut' and n.method in ('push', 'push_back', 'emplace', 'emplace_back', 'push_front')]
                while c.op == 'not':
                    c, lab = c.a[0], not lab
                if add and c.op == 'lt' and len(alts) == 1:
                    sz = [norm(x.a[0]) for x in c.a if x.op == 'size']
                    if sz and sz[0] is norm(add[0].place) and (c.a[1].op == 'size') == lab:
                        R.bad('%s::%s: wait' % (T0, b.fn.decl.n), 'a producer waits until the queue is full enough (%s is %s): an empty queue is never filled' % (
                            show(c)[:60], lab), [wn.where()])
            rmv = any(n.kind == 'mut' and n.method in ('pop', 'pop_front') for n in b.g.nodes)
            flags = [c for c, lab in alts if boolfield(c) is not None]
            if rmv and not flags:
                # must be wakeable by closing
                setters = [bb for bb in bs for n in bb.g.nodes if n.kind == 'notify' and n.get('all') and norm(n.cv) is cv]
                R.bad('%s::%s: closing' % (T0, b.fn.decl.n), 'a consumer waits only for elements: it is never released when no more come', [wn.where()])
            elif rmv:
                R.ok('%s::%s: a waiting consumer is released by closing' % (T0, b.fn.decl.n))
            for c, lab in alts:
                enabling(R, bs, wr, b, wn, cv, c, lab, T0)
        # notify without any waiter etc. is harmless
        counter_rules(R, bs, wr, waits, T0)
        storing(R, bs, wr, T0)


def nonempty(a, lab, place):
    if a.kind != 'branch':
        return False
    c = a.cond
    while c.op == 'not':
        c, lab = c.a[0], not lab
    pl = norm(place)
    if c.op == 'eq':
        x = [y for y in c.a if y.op == 'size' and norm(y.a[0]) is pl]
        return bool(x) and cint(0) in c.a and lab is False
    if c.op == 'lt':
        return c.a[0] is cint(0) and c.a[1].op == 'size' and norm(c.a[1].a[0]) is pl and lab is True
    return False


def boolfield(c):
    while c.op == 'not':
        c = c.a[0]
    if c.op == 'fld' and of_this(c):
        return of_this(c)[0]
    return None


def enabling(R, bs, wr, b, wn, cv, c, lab, T0):
    """every change that can make this alternative of the wait condition true is followed by a notification"""
    while c.op == 'not':
        c, lab = c.a[0], not lab
    evs = []       # (body, node, must be notify_all)
    fb = boolfield(c)
    szs = [x for x in subterms(c) if x.op == 'size' and of_this(norm(x.a[0]))]
    if fb:
        for bb, n in wr.get(fb, []):
            if n.kind == 'write' and not (is_const(n.value) and (n.value is TRUE) is not lab):
                evs.append((bb, n, True))
        what = 'setting %s' % fb
    elif len(szs) == 1:
        f = of_this(norm(szs[0].a[0]))[0]
        grows = None
        if c.op == 'eq' and cint(0) in c.a and lab is False:
            grows = True
        elif c.op == 'lt' and c.a[0] is cint(0) and lab is True:
            grows = True
        elif c.op == 'lt' and c.a[0] is szs[0]:
            grows = not lab
        elif c.op == 'lt' and c.a[1] is szs[0]:
            grows = lab
        if grows is None:
            R.unknown('%s::%s: wait condition %s' % (T0, b.fn.decl.n, show(c)[:60]))
            return
        G = ('push_back', 'push', 'emplace', 'emplace_back', 'push_front', 'insert')
        S = ('pop', 'pop_front', 'pop_back', 'erase', 'clear')
        for bb, n in wr.get(f, []):
            if n.kind == 'mut' and n.method in (G if grows else S):
                evs.append((bb, n, False))
        what = ('adding to %s' if grows else 'removing from %s') % f
    else:
        R.unknown('%s::%s: wait condition %s' % (T0, b.fn.decl.n, show(c)[:60]))
        return
    if not evs:
        R.bad('%s::%s: wait' % (T0, b.fn.decl.n), 'nothing ever makes the awaited condition %s true' % show(c)[:60], [wn.where()])
        return
    for bb, n, all_ in evs:
        g = bb.g
        nt = [m for m in g.nodes if m.kind == 'notify' and norm(m.cv) is cv and (m.get('all') or not all_)]
        p = Search(g).find([n], goal=lambda m: m.kind == 'exit', avoid=lambda m: m in nt)
        if p:
            some = any(m.kind == 'notify' and norm(m.cv) is cv for m in g.nodes)
            R.bad('%s::%s: notification' % (T0, bb.fn.decl.n), '%s is not followed by %s the threads which wait for it (%s)' % (
                what, 'waking all of' if some and all_ else 'waking', wn.loc()), [n.where()] + describe(p, 6))
        else:
            R.ok('%s::%s: %s wakes the waiting threads' % (T0, bb.fn.decl.n, what))


def elem_returned(R, b, n, T0):
    g = b.g
    pl = norm(n.place)
    front = [x for m in g.nodes for t in mentions(m) for x in subterms(t) if x.op == 'elem' and norm(x.a[0]) is pl]
    key = '%s::%s: returned element' % (T0, b.fn.decl.n)
    before = [m for m in g.nodes if any(x.op == 'elem' and norm(x.a[0]) is pl for t in mentions(m) for x in subterms(t))]
    if not front:
        R.unknown(key)
        return
    wrong = [x for x in front if x.a[1] is not cint(0)]
    if wrong:
        R.bad(key, 'the element removed is the first one, but the one returned is %s' % show(wrong[0])[:60], [n.where()])
        return
    p = Search(g).find([g.entry], goal=lambda m: m is n, avoid=lambda m: m in before)
    if p:
        R.bad(key, 'an element is removed without having been read', [n.where()] + describe(p, 6))
        return
    pops = [m for m in g.nodes if m.kind == 'mut' and m.method == n.method and norm(m.place) is pl]
    q = Search(g).find([n], goal=lambda m: m in pops)
    if q:
        R.bad(key, 'two elements are removed for one that is returned', [n.where()] + describe(q, 6))
    else:
        R.ok(key)


def boolval(t, env):
    """value of a condition over small numbers, None when it depends on anything else"""
    if t in env:
        return env[t]
    if is_const(t):
        return t.a[0] if t.op in ("c", "cb") else None
    xs = [boolval(x, env) for x in t.a if isinstance(x, T)]
    if t.op == 'or':
        return True if any(x is True for x in xs) else None if None in xs else any(xs)
    if t.op == 'and':
        return False if any(x is False for x in xs) else None if None in xs else all(xs)
    if None in xs or not xs:
        return None
    if t.op == 'not':
        return not xs[0]
    if t.op == 'lt':
        return xs[0] < xs[1]
    if t.op == 'eq':
        return xs[0] == xs[1]
    if t.op == 'add':
        return sum(xs)
    if t.op == 'sel':
        return xs[1] if xs[0] else xs[2]
    return None


def counter_rules(R, bs, wr, waits, T0):
    flags = set(boolfield(c) for b, n, cv, alts in waits for c, lab in alts if boolfield(c))
    for fl in flags:
        closes = [(b, n) for b, n in wr.get(fl, []) if n.kind == 'write' and n.value is not FALSE]
        cnts = [f for f, l in wr.items() if f != fl and all(n.kind == 'write' for b, n in l)]
        for b, n in closes:
            g = b.g
            key = '%s::%s: closing' % (T0, b.fn.decl.n)
            cw = [m for m in g.nodes if m.kind == 'write' and of_this(m.place) and of_this(m.place)[0] in cnts]
            if not cw:
                R.unknown('%s: no count of producers' % key)
                continue
            new = cw[-1].value
            d = ADD(new, MUL(cint(-1), cw[-1].place))
            if d is not cint(-1):
                if is_const(d):
                    R.bad('%s::%s: count of producers' % (T0, b.fn.decl.n), 'the count of producers changes by %s when one leaves' % show(d), [cw[-1].where()])
                else:
                    R.unknown('%s: count changes by %s' % (key, show(d)[:40]))
                continue

            def zero(a, m, lab):
                if a.kind != 'branch':
                    return False
                c = a.cond
                while c.op == 'not':
                    c, lab = c.a[0], not lab
                if c.op == 'lt' and c.a[0] is cint(0) and c.a[1] is new:
                    return lab is False
                if c.op == 'lt' and c.a[0] is new and c.a[1] is cint(1):
                    return lab is True
                if c.op == 'eq' and new in c.a and cint(0) in c.a:
                    return lab is True
                # the same on the old value
                old = cw[-1].place
                if c.op == 'lt' and c.a[0] is cint(1) and c.a[1] is old:
                    return lab is False
                if c.op == 'eq' and old in c.a and cint(1) in c.a:
                    return lab is True
                return False
            if n.value is not TRUE:
                v = n.value
                t = v
                pol = True
                while t.op == 'not':
                    t, pol = t.a[0], not pol
                ok = t.op == 'lt' and t.a[0] is cint(0) and t.a[1] is new and not pol or t.op == 'eq' and new in t.a and cint(0) in t.a and pol
                if ok:
                    R.ok(key)
                elif t.op in ('lt', 'eq'):
                    R.bad(key, 'the queue is closed when %s is %s' % (show(t)[:60], pol), [n.where()])
                else:
                    # by cases of the number of producers: the last one leaves, one of several leaves
                    cs = [(k, boolval(v, {cw[-1].place: k, n.place: False})) for k in (1, 2, 3)]
                    if any(x is None for _, x in cs):
                        R.unknown(key)
                    elif cs[0][1] is False:
                        R.bad(key, 'the queue stays open after its last producer has left: it is closed when %s' % show(v)[:80], [n.where()])
                    elif any(x for _, x in cs[1:]):
                        R.bad(key, 'the queue is closed while other producers may still add to it: when %s' % show(v)[:80], [n.where()])
                    else:
                        R.ok(key)
                continue
            p = Search(g).find([g.entry], goal=lambda m: m is n, avoid_edge=zero)
            if p:
                R.bad(key, 'the queue is closed while other producers may still add to it', [n.where()] + describe(p, 8))
            else:
                R.ok('%s: only when the last producer leaves' % key)
            # and then it is closed
            q = Search(g).find([cw[-1]], goal=lambda m: m.kind == 'exit', avoid=lambda m: m is n,
                               avoid_edge=lambda a, m, lab: a.kind == 'branch' and zero(a, m, not lab))
            if q:
                R.bad(key, 'the queue stays open after its last producer has left', describe(q, 8))
        for b in bs:
            g = b.g
            if any(bb is b for bb, n in closes):
                continue
            cw = [m for m in g.nodes if m.kind == 'write' and of_this(m.place) and of_this(m.place)[0] in cnts]
            for m in cw[:1]:
                d = ADD(m.value, MUL(cint(-1), m.place))
                if d is cint(1):
                    R.ok('%s::%s: one more producer' % (T0, b.fn.decl.n))
                elif is_const(d):
                    R.bad('%s::%s: count of producers' % (T0, b.fn.decl.n), 'the count of producers changes by %s' % show(d), [m.where()])


def storing(R, bs, wr, T0):
    G = ('push_back', 'push', 'emplace', 'emplace_back', 'push_front')
    for b in bs:
        g = b.g
        ps = [n for n in g.nodes if n.kind == 'mut' and n.method in G and of_this(n.place)]
        if not ps:
            continue
        key = '%s::%s: storing' % (T0, b.fn.decl.n)
        par = [n for n in ps if any(x.op == 'root' and x.a[0] == 'param' for a in n.args if isinstance(a, T) for x in subterms(a))]
        if not par:
            R.unknown(key)
            continue
        p = Search(g).find([g.entry], goal=lambda m: m.kind == 'exit', avoid=lambda m: m in par)
        if p:
            R.bad(key, 'an element can be dropped instead of being stored', describe(p, 8))
            continue
        q = Search(g).find(par, goal=lambda m: m in par)
        if q:
            R.bad(key, 'an element can be stored twice', describe(q, 8))
            continue
        R.ok(key)


# ------------------------------------------------------------------------------------------------ worker bodies
def pops(b):
    return [n for n in b.g.nodes if n.kind == 'mut' and n.method in ('pop', 'pop_front') and not own(n.place, b.base)]


def pushes(b):
    return [n for n in b.g.nodes if n.kind == 'mut' and n.method in ('push_back', 'push', 'emplace', 'emplace_back') and not own(n.place, b.base)]


def work_rules(P, R, bs, title):
    for b in bs:
        if b.main or getattr(b, 'kind', '') != 'thread':
            continue
        g = b.g
        pp = pops(b)
        if not pp:
            continue
        for n in pp:
            # after each removal the element is used before the next one is taken or the thread ends
            calls = [m for m in g.nodes if m.kind == 'usercall']
            use = [m for m in calls if any(x.op == 'elem' and norm(x.a[0]) is norm(n.place) for t in list(mentions(m)) + (
                [m.callee] if isinstance(m.callee, T) else []) for x in subterms(t))]
            key = '%s: work taken from a queue is done' % title
            if not use:
                # values which pass through a conditional are still mentioned; nothing at all: not recognised
                if calls:
                    R.unknown('%s (%s)' % (key, b.name))
                else:
                    R.bad(key, 'the elements taken from the queue are not used (%s)' % b.name, [n.where()])
                continue
            for m in use:
                cst = [a for a in m.args if isinstance(a, T) and is_const(a)]
                if cst:
                    R.bad('%s: numbers of jobs' % title, 'the number of a job is the constant %s (%s)' % (show(cst[0])[:40], b.name), [m.where()])
            p = Search(g).find([g.entry], via=lambda m: m is n, goal=lambda m: m in pp or m.kind == 'exit', avoid=lambda m: m in use)
            if p:
                R.bad(key, 'an element is taken from the queue but not processed (%s)' % b.name, [n.where()] + describe(p, 10))
            else:
                R.ok('%s (%s)' % (key, b.name))
            q = Search(g).find(use, goal=lambda m: m in use, avoid=lambda m: m in pp)
            if q and all(m in use for m in (q[0], q[-1])) and q[0].callee is q[-1].callee:
                R.bad(key, 'an element is processed twice (%s)' % b.name, describe(q, 8))
            # the loop goes on until the queue is closed and empty
            ends = Search(g).find([g.entry], via=lambda m: m is n, goal=lambda m: m.kind == 'exit', avoid=lambda m: m.kind == 'wait' or m in pp,
                                  avoid_edge=lambda a, c, lab: a.kind == 'branch' and empty_edge(a, lab, n.place))
            if ends:
                R.bad('%s: threads go on until the queue is closed' % title, 'the thread ends after an element although more may follow (%s)' % b.name,
                      describe(ends, 10))
            else:
                R.ok('%s: threads go on until the queue is closed (%s)' % (title, b.name))
            # what is pushed on is the element taken
            for m in pushes(b):
                if norm(m.place) is norm(n.place):
                    continue
                p = Search(g).find([g.entry], via=lambda x: x is n, goal=lambda x: x in pp or x.kind == 'exit', avoid=lambda x: x is m)
                if p:
                    R.bad('%s: results are passed on' % title, 'a processed element is not passed on to the next queue (%s)' % b.name, describe(p, 8))
                else:
                    R.ok('%s: results are passed on (%s)' % (title, b.name))
                pr = producer_nodes(b, m.place)
                late = Search(g).find([g.entry], goal=lambda x: x in pp, avoid=lambda x: x in pr)
                if late:
                    R.bad('%s: producers' % title, 'a thread takes work before it is registered as a producer of the queue for the results: the queue can be '
                          'closed while its result is still to come (%s)' % b.name, describe(late, 8))
                else:
                    R.ok('%s: registered as a producer before taking work (%s)' % (title, b.name))
                early = [x for x in leave_nodes(b, m.place) if Search(g).find([x], goal=lambda y: y is m)]
                if early:
                    R.bad('%s: producers' % title, 'a thread adds to a queue after it has deregistered (%s)' % b.name, [early[0].where()])
        # after use, in order: compute before passing on
        for m in pushes(b):
            cs = [c for c in g.nodes if c.kind == 'usercall']
            if pp and cs:
                p = Search(g).find(pp, goal=lambda x: x is m, avoid=lambda x: x in cs)
                if p:
                    R.bad('%s: results are passed on' % title, 'an element is passed on before it has been processed (%s)' % b.name, describe(p, 8))
    # producers: a thread that only adds
    for b in bs:
        if b.main or getattr(b, 'kind', '') != 'thread' or pops(b):
            continue
        g = b.g
        for m in pushes(b):
            pr = producer_nodes(b, m.place)
            p = Search(g).find([g.entry], goal=lambda x: x is m, avoid=lambda x: x in pr)
            if p:
                R.bad('%s: producers' % title, 'elements are added by a thread that is not registered as a producer (%s)' % b.name, describe(p, 8))
            else:
                R.ok('%s: registered as a producer (%s)' % (title, b.name))
            lv_ = leave_nodes(b, m.place)
            q = Search(g).find([m], goal=lambda x: x.kind in ('exit', 'exitthrow'), avoid=lambda x: x in lv_)
            if q:
                R.bad('%s: producers' % title, 'a producer ends without deregistering: consumers wait forever (%s)' % b.name, describe(q, 8))
            early = [x for x in lv_ if Search(g).find([x], goal=lambda y: y is m)]
            if early:
                R.bad('%s: producers' % title, 'a thread adds to a queue after it has deregistered (%s)' % b.name, [early[0].where()])
            for h in loops_of(g, m):
                body = body_of(g, h)
                lvs_ = [x for a in m.args if isinstance(a, T) for x in subterms(a) if x.op == 'lv' and x.a[0] == h.lid]
                cs = [x for x in lvs_ if counter(b.w, x) is not None]
                if not cs:
                    continue
                if all(counter(b.w, x) is not cint(0) for x in cs):
                    R.bad('%s: every job is produced' % title, 'the first job produced is number %s' % show(counter(b.w, cs[0])), [m.where()])
                    continue
                p = Search(g).find([h], goal=lambda x: x is h, avoid=lambda x: x is m)
                if p:
                    R.bad('%s: every job is produced' % title, 'a job can be skipped', describe(p, 8))
                    continue
                # id stored equals the one produced
                ids = set(x for c in g.nodes if c.kind == 'usercall' and c.id in body for a in c.args if isinstance(a, T) for x in [a])
                objs = [x for a in m.args if isinstance(a, T) for x in subterms(a) if x.op == 'obj']
                own_ids = set(v for o in objs for cv in o.a[1:] for v in [cv[1]] if isinstance(v, T) and any(y.op == 'lv' for y in subterms(v))
                              and not any(y.op == 'call' or y.op == 'fresh' or '<user>' in show(y, 2) for y in [v]))
                if ids and own_ids and not (ids & own_ids):
                    R.bad('%s: numbers of jobs' % title, 'the job stored under number %s was produced with number %s' % (
                        show(sorted(own_ids, key=show)[0])[:60], show(sorted(ids, key=show)[0])[:60]), [m.where()])
                elif ids and own_ids:
                    R.ok('%s: numbers of jobs' % title)
                bd = [t for x in cs for t in bound_of(g, h, x)]
                if bd and ADD(bd[0], cint(1)).op == 'root' or bd and ADD(bd[0], cint(-1)).op == 'root':
                    R.bad('%s: every job is produced' % title, 'jobs are produced for numbers below %s' % show(bd[0])[:60], [m.where()])
                    continue
                if bd and all(norm(t).op == 'root' for t in bd):
                    R.ok('%s: every job is produced' % title)
                elif bd and bd[0].op == 'add' and any(is_const(y) for y in bd[0].a):
                    R.bad('%s: every job is produced' % title, 'jobs are produced for numbers below %s' % show(bd[0])[:60], [m.where()])
                else:
                    R.unknown('%s: every job is produced: bound %s' % (title, show(bd[0])[:60] if bd else '?'))


def empty_edge(a, lab, place):
    return nonempty(a, not lab, place)


def qbase(place):
    p = norm(place)
    return p.a[0] if p.op == 'fld' else p


def producer_nodes(b, place):
    B = qbase(place)
    return [n for n in b.g.nodes if n.kind == 'write' and norm(n.place).op == 'fld' and norm(n.place).a[0] is B and
            ADD(n.value, MUL(cint(-1), n.place)) is cint(1)]


def leave_nodes(b, place):
    """the write that takes one producer away"""
    B = qbase(place)
    out = []
    for n in b.g.nodes:
        if n.kind == 'enter' or n.kind != 'write' or norm(n.place).op != 'fld' or norm(n.place).a[0] is not B:
            continue
        pr = producer_nodes(b, place)
        if n in pr or n.value is TRUE or n.value is FALSE:
            continue
        out.append(n)
    return out


# ------------------------------------------------------------------------------------------------ main of a pool
def pool_order(P, R, bs, title):
    b = bs[0]
    g = b.g
    jn = [n for n in g.nodes if n.kind == 'thread' and n.op == 'join']
    adds = [n for n, c in jobs_of(g)]
    if not jn or not adds:
        return
    bases = set(qbase(n.place) for n in adds)
    closes = [n for n in g.nodes if n.kind == 'write' and norm(n.place).op == 'fld' and norm(n.place).a[0] in bases and n.value is TRUE]
    for a in adds:
        p = Search(g).find(closes, goal=lambda m: m is a)
        if p:
            R.bad('%s: jobs after closing' % title, 'a job is added after the pool has been closed', describe(p, 8))
        else:
            R.ok('%s: job added at %s before closing' % (title, a.loc()))
    sp = [n for n in g.nodes if n.kind == 'spawn']
    p = Search(g).find(sp, goal=lambda m: m in jn, avoid=lambda m: m in closes)
    if p:
        R.bad('%s: closing' % title, 'threads are joined although the queue has not been closed: they never end', describe(p, 10))
    else:
        R.ok('%s: the queue is closed before the threads are joined' % title)


def job_count(P, R, bs, title):
    """batches * size + singles covers all vectors"""
    b = bs[0]
    g, w = b.g, b.w
    loops = []
    for n, c in jobs_of(g):
        hs = loops_of(g, n)
        hs = [h for h in hs if not any(m.kind == 'wait' and m.id in body_of(g, h) for m in g.nodes) or True]
        outer = hs[-1] if hs else None
        if outer is None:
            R.unknown('%s: number of jobs' % title)
            return
        cand = []
        for m in g.nodes:
            if m.id in body_of(g, outer) and m.kind == 'branch':
                for x in subterms(m.cond):
                    if x.op == 'lv' and x.a[0] == outer.lid and counter(w, x) is not None:
                        for t in bound_of(g, outer, x):
                            cand.append((counter(w, x), t))
        if len(cand) != 1:
            R.unknown('%s: number of jobs at %s' % (title, n.loc()))
            return
        p = Search(g).find([outer], goal=lambda m: m is outer, avoid=lambda m: m is n)
        if p:
            R.bad('%s: number of jobs' % title, 'a job is left out', describe(p, 8))
            return
        # vectors this job makes
        jb = next((x for x in bs if not x.main and x.made is n or getattr(x, 'made', None) is n), None)
        num = made_by(jb) if jb else None
        loops.append((ADD(cand[0][1], MUL(cint(-1), cand[0][0])), num, n))
    if any(num is None for _, num, _ in loops):
        R.unknown('%s: vectors made by a job' % title)
        return
    total = cint(0)
    conds = set(x.a[0] for t, _, _ in loops for x in subterms(t) if x.op == 'sel')
    if len(conds) > 3:
        R.unknown('%s: number of jobs' % title)
        return
    import itertools
    conds = sorted(conds, key=show)
    for pol in itertools.product((True, False), repeat=len(conds)):
        f = dict(zip(conds, pol))
        tot = cint(0)
        terms = []
        for t, num, n in loops:
            tt = pick(t, f)
            terms.append((tt, num))
            tot = ADD(tot, MUL(num, tt))
        verdict(R, title, terms, tot, f, [n.where() for _, _, n in loops])


def pick(t, f):
    if t.op == 'sel':
        return pick(t.a[1] if f.get(t.a[0], True) else t.a[2], f)
    if t.op == 'add':
        r = cint(0)
        for x in t.a:
            r = ADD(r, pick(x, f))
        return r
    return t


def made_by(b):
    g = b.g
    ms = [n for n in g.nodes if n.kind == 'usercall' and isinstance(n.callee, T) and len(n.args) == 1 and not own(n.callee, b.base) and b.ls.get(n.id)]
    if len(ms) != 1:
        return None
    hs = loops_of(g, ms[0])
    if not hs:
        return cint(1)
    if len(hs) > 1:
        return None
    for m in g.nodes:
        if m.id in body_of(g, hs[0]) and m.kind == 'branch':
            for x in subterms(m.cond):
                if x.op == 'lv' and x.a[0] == hs[0].lid and counter(b.w, x) is cint(0):
                    for t in bound_of(g, hs[0], x):
                        return t
    return None


def show_pair(p):
    return show(p[0]) + ' ' + show(p[1])


def verdict(R, title, terms, tot, f, where):
    """terms: (jobs, vectors per job)"""
    key = '%s: all vectors are computed' % title
    dv = [x for t, _ in terms for x in subterms(t) if x.op == 'op' and x.a[0] in ('/', '%')]
    # the one quotient/remainder pair
    ns = set((x.a[1], x.a[2]) for x in dv)
    if len(ns) != 1:
        if len(ns) == 2 and len(set(x for x, _ in ns)) == 1 and len(dv) >= 2 and set(x.a[0] for x in dv) == {'/', '%'}:
            (x, b1), (_, b2) = sorted(ns, key=show_pair)
            R.bad(key, 'the number of batches comes from dividing by %s, that of single vectors from the remainder for %s' % tuple(
                show(next(y.a[2] for y in dv if y.a[0] == o))[:40] for o in ('/', '%')), where)
        elif not dv and all(not is_const(t) for t, _ in terms):
            # one job per vector
            R.unknown('%s: %s' % (key, show(tot)[:80]))
        elif not dv and all(is_const(t) for t, _ in terms):
            R.bad(key, 'the number of jobs is constant', where)
        else:
            R.unknown('%s: %s' % (key, show(tot)[:80]))
        return
    (n, B), = ns
    q, r = mk('op', '/', n, B), mk('op', '%', n, B)
    qq = next((x for x in dv if x.a[0] == '/'), None)
    rr = next((x for x in dv if x.a[0] == '%'), None)
    batch = [(t, m) for t, m in terms if m is B]
    single = [(t, m) for t, m in terms if m is cint(1)]
    if len(batch) != 1 or len(single) != 1 or B is cint(1):
        R.unknown('%s: %s' % (key, show(tot)[:80]))
        return
    bt, st = batch[0][0], single[0][0]
    db = ADD(bt, MUL(cint(-1), qq)) if qq is not None else None
    if db is None or not is_const(db):
        R.unknown('%s: %s batches' % (key, show(bt)[:60]))
        return
    if st is rr and db is cint(0):
        R.ok(key + ': exact')
    elif st is cint(0) and db is cint(1):
        R.ok(key + ': last batch partly used')
    elif st is rr:
        R.bad(key, '%s batches of %s and %s single vectors are computed for %s vectors' % (show(bt)[:40], show(B), show(st)[:40], show(n)[:40]), where)
    elif is_const(st):
        R.bad(key, '%s batches of %s and %s single vectors are computed for %s vectors' % (show(bt)[:40], show(B), show(st)[:40], show(n)[:40]), where)
    else:
        R.unknown('%s: %s' % (key, show(tot)[:80]))


def check(P, R):
    # ---- everything that spawns threads
    spawners = []
    for f in P.fns.values():
        if f.b is None or f.decl is None:
            continue
        if has_thread(P, f):
            spawners.append(f)
    entries = {}
    cg = callgraph(P)
    callers = {}
    for i, (c, t) in cg.items():
        for x in c:
            callers.setdefault(x, set()).add(i)
    for f in spawners:
        if f.decl.ctor or f.decl.method:
            # a pool: analyse the functions which create it (other than itself)
            for i in callers.get(f.id, ()):
                u = P.fns.get(i)
                if u is not None and u.decl is not None and u.decl.cls != f.decl.cls:
                    entries.setdefault((u.file, u.line), []).append(u)
        else:
            entries.setdefault((f.file, f.line), []).append(f)
    R.count('functions_creating_threads', len(entries))
    R.need(entries, 'code which creates threads')
    for k, fs in sorted(entries.items()):
        fs = sorted(fs, key=lambda f: f.id)
        pick_ = [f for f in fs if any('double' in (t.s or '') for t in f.decl.params)] or fs
        for f in dict.fromkeys([pick_[0], fs[-1]]):
            title = f.decl.n if f.decl.n != 'operator()' else 'batch'
            bs = bodies(P, f)
            R.count('thread_bodies', len(bs) - 1)
            R.count('graph_nodes', sum(len(b.g.nodes) for b in bs))
            discipline(P, R, bs, title)
            callables(P, R, bs, title)
            joined(P, R, bs, title)
            pool_order(P, R, bs, title)
            work_rules(P, R, bs, title)
            if any(getattr(b, 'kind', '') == 'job' for b in bs):
                numbering(P, R, bs, title)
                job_count(P, R, bs, title)
    queue_rules(P, R)


def has_thread(P, f):
    st = [f.b, f.inits]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get('k') == 'ctor':
                t = P.types.get((f.tag, x.get('t')))
                if t is not None and t.short == 'std::thread' and x.get('a'):
                    return True
            if x.get('k') == 'lambda':
                pass
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)
    return False


# ------------------------------------------------------------------------------------------------ collecting the results of jobs
def is_min(t, a, b):
    if t.op == 'sel' and t.a[0].op == 'lt':
        x, y = t.a[0].a
        return {x, y} == {a, b} and t.a[1] is x and t.a[2] is y
    if t.op in ('call', 'min') or t.op.startswith('std::min'):
        return {x for x in t.a if isinstance(x, T)} == {a, b} and 'min' in (t.op + str(t.a[0]))
    return False


def collectors(P, R):
    for cls, mode in (('BatchAccumulator', 'sum'), ('BatchConcatenator', 'cat')):
        fs = [f for f in P.fn('cpb::kpm::%s::operator()' % cls) if f.b is not None and len(f.p) == 4]
        if not fs:
            R.unknown('%s: not found' % cls)
            continue
        f = fs[0]
        w = Walker(P)
        g = w.run(f)
        R.count('graph_nodes', len(g.nodes))
        res, nd, idx, nvec = [mk('root', 'param', 0, p['n']) for p in f.p]
        S = Search(g)
        alts = {}
        for n in g.nodes:
            for t in mentions(n) + ([n.place] if n.kind == 'write' else []):
                for x in subterms(t):
                    if x.op == 'alt' and x.a[0] is nd:
                        alts.setdefault(x, []).append(n)
        if not alts:
            R.unknown('%s: data not recognised' % cls)
            continue
        for A, ns in sorted(alts.items(), key=lambda x: show(x[0])):
            two = ', -1, -1,' in str(A.a[1])
            kind = 'batch' if two else 'single'
            key = '%s (%s)' % (cls, kind)
            br = [n for n in g.nodes if n.kind == 'branch' and n.cond.op == 'altis' and n.cond.a[0] is nd and str(n.cond.a[1]) == str(A.a[1])]
            start = [m for n in br for m, lab in n.succ if lab is True]
            if not start:
                start = [m for n in g.nodes if n.kind == 'branch' and n.cond.op == 'altis' and n.cond.a[0] is nd for m, lab in n.succ
                         if lab is False and m in ns] or ns[:1]
            facts = {n.cond: True for n in br}
            stores = []
            for n in ns:
                if n.kind != 'write' or own_count(n.place):
                    continue
                v = n.value
                d = [x for x in subterms(v) if x is A]
                if not d or not uses_data(v, A):
                    continue
                if v.op == 'op' and v.a[0] == '/':
                    continue
                stores.append(n)
            if not stores:
                R.unknown('%s: data not stored in a recognised way' % key)
                continue
            cnt = [n for n in g.nodes if n.kind == 'write' and own_count(n.place) and n.value is not cint(0) and
                   any(m is n for s in start for m in [n]) and n.id in reachable(start) | set(m.id for m in start)]
            rem = ADD(nvec, MUL(cint(-1), idx))
            cols = mk('call', 'cols', A)
            looped = {}
            for n in list(stores):
                hs = loops_of(g, n)
                if hs:
                    h = hs[-1]
                    lv = [x for t in (n.value, n.place) for x in subterms(t) if x.op == 'lv' and x.a[0] == h.lid and counter(w, x) is not None]
                    bd = [t for x in lv for t in bound_of(g, h, x)]
                    skip = S.find([h], goal=lambda m: m is h, avoid=lambda m: m is n)
                    if len(hs) > 1 or not lv or len(set(lv)) > 1 or not bd or skip or counter(w, lv[0]) is not cint(0):
                        lv = None
                    looped[n] = (h, lv and lv[0], lv and bd[0])
            if any(l is None for _, l, _ in looped.values()):
                R.unknown('%s: data stored in a loop' % key)
                continue
            heads = [looped[n][0] if n in looped else n for n in stores]
            same = lambda n: n in heads
            starts = [n for n in br] or start
            p = S.find(starts, goal=lambda m: m.kind == 'exit' or (m.kind == 'branch' and m.cond.op == 'altis' and m.cond.a[0] is nd and m not in br),
                       avoid=same, facts=facts)
            if p:
                R.bad('%s: every vector is stored' % key, 'the data of a job can be left out', describe(p, 8))
                continue
            R.ok('%s: every vector is stored' % key)
            if mode == 'sum':
                q = S.find(stores, goal=same) if False else S.find(starts, via=same, goal=same, facts=facts)
                if q and not looped:
                    R.bad('%s: every vector is added once' % key, 'the data of a job is added twice', describe(q, 8))
                else:
                    R.ok('%s: every vector is added once' % key)
            for n in stores:
                lp = looped.get(n)
                subs = [x for x in subterms(n.value) if x.op == 'sub' and x.a[0] is A]
                if two:
                    if not subs:
                        R.bad('%s: surplus columns' % key, 'all columns of a batch are used, including those beyond the requested number of vectors', [n.where()])
                        continue
                    x = subs[0]
                    m = x.a[1]
                    ext = lp[2] if lp and m == 'col' and x.a[2] is lp[1] else x.a[2] if m == 'leftCols' and len(x.a) > 2 else x.a[5] if m == 'block' and len(x.a) > 5 else None
                    if ext is None:
                        if m in ('rowwise', 'colwise', 'sum'):
                            R.bad('%s: surplus columns' % key, 'all columns of a batch are used, including those beyond the requested number of vectors', [n.where()])
                        elif m in ('rightCols',):
                            R.bad('%s: surplus columns' % key, 'the last instead of the first columns of a batch are used', [n.where()])
                        else:
                            R.unknown('%s: columns used: %s' % (key, m))
                    elif is_min(ext, cols, rem) or any(is_min(ext, c, rem) for c in [y for y in subterms(ext) if y.op == 'cols']):
                        R.ok('%s: only requested columns are used' % key)
                    elif ext is cols or ext is rem or ext is nvec:
                        R.bad('%s: surplus columns' % key, '%s columns of a batch are used' % show(ext)[:60], [n.where()])
                    elif ext.op == 'sel' and ext.a[0].op == 'lt' and set(ext.a[0].a) == {cols, rem}:
                        R.bad('%s: surplus columns' % key, 'the number of used columns is the larger of the batch size and what remains', [n.where()])
                    elif ext.op == 'sel':
                        R.bad('%s: surplus columns' % key, 'the number of used columns is %s' % show(ext)[:120], [n.where()]) \
                            if ext.a[0].op == 'lt' and cols in ext.a[1:] and ext.a[0].a[0] is cols else R.unknown('%s: columns %s' % (key, show(ext)[:80]))
                    else:
                        R.unknown('%s: columns used: %s' % (key, show(ext)[:80]))
                if mode == 'cat':
                    pl = n.place
                    if pl.op == 'sub':
                        m = pl.a[1]
                        pos = pl.a[2] if m in ('col',) else pl.a[3] if m == 'block' and len(pl.a) > 3 else pl.a[2] if m == 'middleCols' else None
                        if pos is None:
                            R.bad('%s: position' % key, 'the result is stored in %s' % m, [n.where()]) if m in ('row', 'leftCols', 'rightCols') else \
                                R.unknown('%s: position %s' % (key, m))
                        elif pos is (ADD(idx, lp[1]) if lp else idx):
                            R.ok('%s: stored at its own index' % key)
                        elif own_count(pos) or is_const(pos) or any(y is idx for y in subterms(pos)):
                            R.bad('%s: position' % key, 'the result of vector number %s is stored in column %s' % (show(idx), show(pos)[:60]), [n.where()])
                        else:
                            R.unknown('%s: position %s' % (key, show(pos)[:60]))
                    else:
                        R.unknown('%s: destination %s' % (key, show(pl)[:60]))
            # initialisation only for the first one
            zero = [n for n in g.nodes if n.kind == 'branch' and n.cond.op == 'eq' and cint(0) in n.cond.a and any(own_count(y) for y in n.cond.a)]
            inits = [n for n in ns if n.kind == 'write' and n.place is res]
            for n in inits:
                p = S.find(starts, goal=lambda m: m is n, facts=facts,
                           avoid_edge=lambda a, c, lab: a in zero and lab is True)
                if p:
                    R.bad('%s: start' % key, 'earlier results are discarded', describe(p, 8))
                else:
                    R.ok('%s: initialised only for the first result' % key)
                if mode == 'cat':
                    cs = [x for x in subterms(n.value) if x.op in ('call',) or 'ctor' in x.op]
                    if any(nvec in x.a for x in cs):
                        R.ok('%s: room for all vectors' % key)
            p = S.find(starts, goal=lambda m: m.kind == 'exit', avoid=lambda m: m.kind == 'write' and own_count(m.place), facts=facts)
            if p and inits:
                R.bad('%s: count' % key, 'the count of results does not advance', describe(p, 8))
            if mode == 'sum':
                divs = [n for n in g.nodes if n.kind == 'write' and n.value.op == 'op' and n.value.a[0] == '/' and not own_count(n.place)
                        and n.id in reachable(start)]
                mine = [n for n in divs if A in subterms(n.value)] or divs
                if not divs:
                    R.bad('%s: average' % key, 'the sum over random vectors is not divided by their number', [stores[-1].where()])
                    continue
                for n in mine:
                    dv = n.value.a[2]
                    if dv is nvec or nvec in subterms(dv):
                        R.ok('%s: divided by the number of vectors' % key)
                    elif is_const(dv) or any(own_count(y) or y is A for y in subterms(dv)):
                        R.bad('%s: average' % key, 'the sum over random vectors is divided by %s' % show(dv)[:60], [n.where()])
                    else:
                        R.unknown('%s: divided by %s' % (key, show(dv)[:60]))
                if not cnt:
                    R.unknown('%s: count' % key)
                    continue

                def full(a, lab):
                    """an edge which says that all vectors are in (or that there is just one)"""
                    if a.kind != 'branch':
                        return None
                    c = a.cond
                    while c.op == 'not':
                        c, lab = c.a[0], not lab
                    if c.op == 'lt' and c.a[1] is nvec and any(own_count(y) for y in subterms(c.a[0])):
                        return lab is False
                    if c.op == 'eq' and nvec in c.a and any(own_count(y) for y in subterms(c.a[0]) | subterms(c.a[1])):
                        return lab is True
                    if c.op == 'lt' and c.a[0] is nvec and any(own_count(y) for y in subterms(c.a[1])):
                        return 'late' if lab is True else None
                    return None
                for n in mine:
                    p = S.find(starts, goal=lambda m: m is n, facts=facts, avoid_edge=lambda a, c, lab: full(a, lab) is True)
                    if p:
                        late = any(full(a, lab) == 'late' for a, b_ in zip(p, p[1:]) for m, lab in a.succ if m is b_)
                        R.bad('%s: average' % key, 'the sum is divided %s' % ('only after more than the requested number of vectors' if late else
                                                                             'before all vectors have been added'), describe(p, 8))
                    else:
                        R.ok('%s: divided when all vectors are in' % key)
                # eq with batches can miss the end
                for a in g.nodes:
                    if a.kind == 'branch' and two and a.cond.op == 'eq' and nvec in a.cond.a and any(
                            A in subterms(y) and any(own_count(z) for z in subterms(y)) for y in a.cond.a):
                        adv = [y for c in cnt for y in subterms(c.value) if y.op == 'sel']
                        if not adv:
                            R.bad('%s: average' % key, 'the count of vectors can step over the requested number, the sum is then never divided', [a.where()])


def dimension(x):
    return x.op in ('rows', 'cols', 'size') or (x.op == 'call' and x.a and x.a[0] in ('rows', 'cols', 'size', 'Eigen::Array::ctor', 'Eigen::Matrix::ctor'))


def uses_data(v, A):
    """does the value contain the data itself, not only its dimensions?"""
    st = [v]
    while st:
        x = st.pop()
        if x is A:
            return True
        if dimension(x):
            continue
        if x.op == 'sub':
            st.append(x.a[0])
            continue
        if x.op == 'sel':
            st += [x.a[1], x.a[2]]
            continue
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                st += [z for z in y if isinstance(z, T)]
    return False


def own_count(p):
    return isinstance(p, T) and p.op == 'fld' and p.a[0] is THIS


PARTS = [check, collectors]
