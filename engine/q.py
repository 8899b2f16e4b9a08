"""Graph queries shared by the rules: feasible-path search with correlated branches, must-pass, dominators."""
from terms import *


# ---------------------------------------------------------------- facts (three-valued evaluation of branch conditions)
def learn(facts, t, pol):
    """facts: dict term->bool (copied on write). -> new dict, or None when contradictory"""
    todo = [(t, pol)]
    out = None
    while todo:
        t, pol = todo.pop()
        while t.op == 'not':
            t, pol = t.a[0], not pol
        v = ev(t, out if out is not None else facts)
        if v is not None:
            if v != pol:
                return None
            continue
        if out is None:
            out = dict(facts)
        out[t] = pol
        if t.op == 'and' and pol or t.op == 'or' and not pol:
            for x in t.a:
                todo.append((x, pol))
        elif t.op in ('and', 'or'):
            rest = [x for x in t.a if ev(x, out) is None]
            if len(rest) == 1:
                todo.append((rest[0], pol))
        elif t.op == 'sel':
            c = ev(t.a[0], out)
            if c is not None:
                todo.append((t.a[1] if c else t.a[2], pol))
            else:
                x, y = ev(t.a[1], out), ev(t.a[2], out)
                if x is not None and x != pol:
                    todo.append((t.a[0], False))
                elif y is not None and y != pol:
                    todo.append((t.a[0], True))
    return out if out is not None else facts


_hs = {}


def has_sel(t):
    r = _hs.get(t)
    if r is None:
        r = _hs[t] = contains(t, lambda x: x.op == 'sel')
    return r


def ev(t, facts):
    r = _ev(t, facts)
    if r is None and facts and t.op not in ('and', 'or', 'not', 'sel') and has_sel(t) and t.size < 3000:
        def f(x):
            if x.op == 'sel':
                c = _ev(x.a[0], facts)
                if c is not None:
                    return resolve(x.a[1] if c else x.a[2], f)
            return None
        t2 = resolve(t, f)
        if t2 is not t:
            return _ev(t2, facts)
    return r


def resolve(t, f):
    return subst(t, f)


def _ev(t, facts):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t in facts:
        return facts[t]
    op = t.op
    if op == 'not':
        v = ev(t.a[0], facts)
        return None if v is None else not v
    if op == 'and':
        r = True
        for x in t.a:
            v = ev(x, facts)
            if v is False:
                return False
            if v is None:
                r = None
        return r
    if op == 'or':
        r = False
        for x in t.a:
            v = ev(x, facts)
            if v is True:
                return True
            if v is None:
                r = None
        return r
    if op == 'sel':
        c = ev(t.a[0], facts)
        if c is not None:
            return ev(t.a[1] if c else t.a[2], facts)
        x, y = ev(t.a[1], facts), ev(t.a[2], facts)
        return x if x is not None and x == y else None
    if op == 'eq':
        a, b = t.a
        if is_const(b):
            for (f, v) in facts.items():
                if v and f.op == 'eq' and f.a[0] is a and is_const(f.a[1]) and f.a[1] is not b:
                    return False
        for x, y in ((a, b), (b, a)):
            if x.op == 'sel':
                c = ev(x.a[0], facts)
                if c is not None:
                    return ev(EQ(x.a[1] if c else x.a[2], y), facts)
    if op in ('altis', 'dynis'):
        for (f, v) in facts.items():
            if v and f.op == op and f.a[0] is t.a[0] and f.a[1] is not t.a[1]:
                return False
    return None


def _lids(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = frozenset(x.a[0] for x in subterms(t) if x.op == 'lv')
        memo[t] = r
    return r


def correlated(g):
    """conditions worth remembering: atoms that occur in two or more branch nodes"""
    cnt = {}
    for n in g.nodes:
        if n.kind == 'branch':
            for x in set(subterms(n.cond)):
                cnt[x] = cnt.get(x, 0) + 1
    keep = set()
    for n in g.nodes:
        if n.kind == 'branch':
            c = n.cond
            if cnt[c] > 1 or any(cnt.get(x, 0) > 1 and x.op in ('eq', 'lt', 'altis', 'dynis', 'call', 'and', 'or', 'sel',
                                                                'fld', 'root')
                                 for x in subterms(c) if x is not c and boolish(x)):
                keep.add(n.id)
            elif c.op in ('altis', 'dynis') or (c.op == 'eq' and is_const(c.a[1])):
                keep.add(n.id)
    return keep


def boolish(x):
    return x.op in ('eq', 'lt', 'altis', 'dynis', 'and', 'or', 'not', 'call')


class Search:
    def __init__(self, g, limit=60000):
        self.g = g
        self.keep = correlated(g)
        self.limit = limit
        self.capped = False
        self._liveness()

    def _tokens(self, t):
        r = self.tok.get(t)
        if r is None:
            r = 0
            for x in subterms(t):
                if boolish(x) or x is t or x.op in ('sel', 'not'):
                    ys = [x]
                    if x.op in ('eq', 'altis', 'dynis'):
                        ys += [y for y in x.a if isinstance(y, T) and not is_const(y)]
                    for y in ys:
                        b = self.bit.get(y)
                        if b is None:
                            b = self.bit[y] = 1 << len(self.bit)
                        r |= b
            self.tok[t] = r
        return r

    def _liveness(self):
        self.tok, self.bit = {}, {}
        live = {}
        n0 = self.g.nodes
        gen = {}
        for n in n0:
            gen[n.id] = self._tokens(n.cond) if n.kind == 'branch' else 0
            live[n.id] = gen[n.id]
        work = [n for n in n0]
        inq = set(n.id for n in n0)
        while work:
            n = work.pop()
            inq.discard(n.id)
            v = live[n.id]
            for p, _ in n.pred:
                nv = live[p.id] | v
                if nv != live[p.id]:
                    live[p.id] = nv
                    if p.id not in inq:
                        inq.add(p.id)
                        work.append(p)
        self.live = live

    def find(self, starts, goal, avoid=lambda n: False, facts=None, via=None, avoid_edge=None):
        """first feasible path (list of nodes) from one of `starts` to a goal node with no `avoid` node on it.
        starts: nodes (the search leaves them); None when there is none.  facts: dict known at the start.
        via: when given, the path must first pass a node satisfying it; `avoid`/`avoid_edge` only apply afterwards."""
        seen = set()
        st = []
        for n in starts:
            st.append((n, dict(facts or {}), None, True, via is None))
        self.capped = False
        steps = 0
        while st:
            n, f, par, first, armed = st.pop()
            link = (n, par)
            if not armed and via(n):
                armed = True
            elif armed and not first:
                if goal(n):
                    out = []
                    x = link
                    while x is not None:
                        out.append(x[0])
                        x = x[1]
                    return out[::-1]
                if avoid(n):
                    continue
            steps += 1
            if steps > self.limit:
                self.capped = True
            if n.kind == 'loop' and f:
                lid = n.lid
                f2 = {k: v for k, v in f.items() if lid not in _lids(k)}
                f = f2 if len(f2) != len(f) else f
            for m, lab in n.succ:
                if armed and avoid_edge is not None and avoid_edge(n, m, lab):
                    continue
                g2 = f
                if n.kind == 'branch':
                    v = ev(n.cond, f)
                    if v is not None:
                        if v is not lab:
                            continue
                    elif n.id in self.keep and not self.capped:
                        g2 = learn(f, n.cond, lab)
                        if g2 is None:
                            continue
                if g2:
                    lv = self.live[m.id]
                    if any(not (self._tokens(k) & lv) for k in g2):
                        g2 = {k: v for k, v in g2.items() if self._tokens(k) & lv}
                key = (m.id, armed, frozenset(g2.items()) if not self.capped else None)
                if key in seen:
                    continue
                seen.add(key)
                st.append((m, g2, link, False, armed))
        return None


def path_facts(path):
    """branch decisions taken along a path"""
    out = []
    for a, b in zip(path, path[1:]):
        if a.kind == 'branch':
            for m, lab in a.succ:
                if m is b:
                    out.append((a.cond, lab))
                    break
    return out


def describe(path, limit=14):
    """short human-readable witness"""
    out = []
    for a, b in zip(path, path[1:]):
        if a.kind == 'branch':
            lab = [l for m, l in a.succ if m is b]
            out.append('%s: %s is %s' % (a.loc(), show(a.cond)[:110], lab[0] if lab else '?'))
        elif a.kind in ('write', 'mut', 'throw', 'exitthrow', 'usercall', 'catch', 'call'):
            out.append('%s: %s %s' % (a.loc(), a.kind, brief(a)))
    if path:
        out.append('%s: %s' % (path[-1].loc(), path[-1].kind))
    if len(out) > limit:
        out = out[:limit // 2] + ['...'] + out[-limit // 2:]
    return out


def brief(n):
    d = n.d
    for k in ('place', 'fn', 'type', 'callee'):
        if k in d:
            v = d[k]
            return (show(v) if isinstance(v, T) else str(v))[:100] + (' .' + d['method'] if n.kind == 'mut' else '')
    return ''


# ---------------------------------------------------------------- plain graph facts
def reachable(starts, avoid=lambda n: False, succ='succ'):
    seen = set()
    st = list(starts)
    while st:
        n = st.pop()
        for m, _ in getattr(n, succ):
            if m.id in seen or avoid(m):
                continue
            seen.add(m.id)
            st.append(m)
    return seen


def dominators(g):
    """immediate-dominator based dominator sets as bit masks (node id -> int mask)"""
    order = []
    seen = {g.entry.id}
    st = [(g.entry, iter(g.entry.succ))]
    while st:
        n, it = st[-1]
        for m, _ in it:
            if m.id not in seen:
                seen.add(m.id)
                st.append((m, iter(m.succ)))
                break
        else:
            order.append(n)
            st.pop()
    order.reverse()
    idx = {n.id: i for i, n in enumerate(order)}
    idom = {g.entry.id: g.entry.id}
    changed = True
    while changed:
        changed = False
        for n in order[1:]:
            new = None
            for p, _ in n.pred:
                if p.id in idom:
                    if new is None:
                        new = p.id
                    else:
                        a, b = p.id, new
                        while a != b:
                            while idx.get(a, -1) > idx.get(b, -1):
                                a = idom[a]
                            while idx.get(b, -1) > idx.get(a, -1):
                                b = idom[b]
                        new = a
            if new is not None and idom.get(n.id) != new:
                idom[n.id] = new
                changed = True
    return idom


def dom_chain(idom, nid):
    out = [nid]
    while idom.get(nid, nid) != nid:
        nid = idom[nid]
        out.append(nid)
    return out


def loop_body(g, head):
    """ids of the nodes in the natural loop(s) of a loop head node"""
    body = {head.id}
    idom = g.__dict__.get('_idom')
    if idom is None:
        idom = g.__dict__['_idom'] = dominators(g)
    st = [p for p, _ in head.pred if p.id in idom and head.id in dom_chain(idom, p.id)]
    while st:
        n = st.pop()
        if n.id in body:
            continue
        body.add(n.id)
        for p, _ in n.pred:
            st.append(p)
    return body


def fld_path(p):
    """place term -> tuple of field names from the root, ('*',) for elements"""
    out = []
    while p.op != 'root':
        if p.op == 'fld':
            out.append(p.a[1])
            p = p.a[0]
        elif p.op in ('elem', 'sub'):
            out.append('[]')
            p = p.a[0]
        elif p.op == 'alt':
            out.append('alt')
            p = p.a[0]
        elif p.op == 'deref':
            out.append('*')
            p = p.a[0]
            if p.op == 'addr':
                p = p.a[0]
        else:
            break
    return p, tuple(reversed(out))


def this_field(p, this_pred=lambda r: r.op == 'root' and r.a[0] == 'this'):
    """top-level field of *this a place belongs to, or None"""
    r = root_of(p)
    if not this_pred(r):
        return None
    for x in reversed(list(prefixes(p))) if prefixes(p) else ():
        pass
    q = p
    last = None
    while q is not r:
        if q.op == 'fld' and q.a[0] is r:
            last = q.a[1]
        if not q.a or not isinstance(q.a[0], T):
            break
        q = q.a[0]
    return last
