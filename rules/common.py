from terms import *
from walk import Walker, Incomplete
from prog import strip_targs
import driver
from q import *
import q as Q

THIS = mk('root', 'this', 0, 'this')


def methods(P, cls, public=True, const=None, ctor=False):
    out = []
    for f in P.fns.values():
        d = f.decl
        if d is None or d.cls != cls or d.static or not d.method and not d.ctor:
            continue
        if bool(d.ctor) != ctor or d.dtor:
            continue
        if public and d.access != 0:
            continue
        if const is not None and bool(d.const) != const:
            continue
        if d.implicit or d.copyassign or d.moveassign or d.copyctor or d.movector:
            continue
        out.append(f)
    out.sort(key=lambda f: (f.file, f.line, f.id))
    return out


def sig(f):
    """readable signature"""
    ps = []
    for t in (f.decl.params if f.decl else []):
        s = t.strip_ref() if t.k in ('lref', 'rref') else t
        n = (s.short or s.s or '?').replace('cpb::', '').replace('const ', '')
        ps.append(n if len(n) < 40 else n[:40])
    return '%s(%s)' % (f.qn.replace('cpb::', ''), ', '.join(ps))


def files_of(P, recs):
    return set(r.file for r in recs if r is not None)


def one(P, qn, what=None):
    l = P.fn(qn)
    if not l:
        raise driver.CheckError('anchor missing: function %s' % (what or qn))
    return l[0]


def fldname(p):
    """(root, 'a.b.[]') rendering of a place"""
    r, path = fld_path(p)
    return r, '.'.join(x for x in path if x not in ('*',))


def of_this(p, this=THIS):
    r, path = fld_path(p)
    if r is not this:
        return None
    out = []
    for x in path:
        if x in ('[]', 'alt', '*'):
            break
        out.append(x)
    return tuple(out)


def pre(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def places_in(t):
    for x in subterms(t):
        if x.op in PLACE_OPS:
            yield x


def loops_containing(g, ids):
    """loop heads whose natural body meets ids"""
    out = set()
    for n in g.nodes:
        if n.kind == 'loop':
            b = loop_body(g, n)
            if b & ids:
                out.add(n.id)
    return out


def deep(w, t):
    """all subterms of t, following loop-carried values to what they are computed from"""
    memo = w.__dict__.setdefault('_deep', {})
    key = t
    r = memo.get(key)
    if r is not None:
        return r
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y in seen:
                continue
            seen.add(y)
            if y.op == 'lv':
                todo.extend(w.lvinfo.get(y, ()))
    memo[key] = seen
    return seen


def deep_places(w, t):
    """maximal places read by t (not their enclosing objects), following loop-carried values"""
    memo = w.__dict__.setdefault('_deepp', {})
    r = memo.get(t)
    if r is not None:
        return r
    seen, out, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'lv':
            todo.extend(w.lvinfo.get(x, ()))
            # the loop value names a place, it does not read it
            continue
        if x.op in PLACE_OPS and x.op != 'root':
            out.add(x)
            b = x
            while b.op in ('fld', 'elem', 'sub', 'alt'):
                for y in b.a[1:]:
                    if isinstance(y, T):
                        todo.append(y)
                b = b.a[0]
            if b.op == 'deref':
                todo.append(b.a[0])
            elif b.op != 'root':
                todo.append(b)
            continue
        if x.op == 'root':
            out.add(x)
            continue
        for y in x.a:
            if isinstance(y, T):
                todo.append(y)
            elif isinstance(y, tuple):
                todo.extend(z for z in y if isinstance(z, T))
    memo[t] = out
    return out


def ast_calls(b):
    """(called ids, has an explicit throw) of a function body"""
    out, thr, st, made = set(), False, [b], set()
    while st:
        x = st.pop()
        if isinstance(x, dict):
            k = x.get('k')
            if k == 'throw':
                thr = True
            if k in ('call', 'ctor') and isinstance(x.get('f'), str):
                out.add(x['f'])
            if k == 'lambda' and isinstance(x.get('f'), str):
                out.add(x['f'])
            if k in ('init', 'ctor', 'zero') and 't' in x:
                made.add(x['t'])
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)
    return out, thr, made


THROWING_EXT = ('std::function::operator()', 'std::vector::at', 'std::unordered_map::at', 'std::map::at',
                'std::get_future', 'std::future::get')


def callgraph(P):
    cg = getattr(P, '_callgraph', None)
    if cg is None:
        cg = {}
        opcalls = {}
        for f in P.fns.values():
            if f.decl is not None and f.decl.n == 'operator()' and f.decl.cls:
                opcalls.setdefault(f.decl.cls, set()).add(f.id)
        for f in P.fns.values():
            c, t, made = ast_calls([f.b, f.inits])
            for ti in made:
                ty = P.types.get((f.tag, ti))
                if ty is not None and ty.rid in P.recs and P.recs[ty.rid].repo:
                    # a function object: whoever receives it may call it
                    c.update(m['id'] for m in P.recs[ty.rid].methods if m.get('n') == 'operator()'
                             or getattr(P.decls.get(m['id']), 'n', '') == 'operator()')
                    c.update(opcalls.get(P.recs[ty.rid].short, ()))
            for x in list(c):
                c.update(P.all_overriders(x))
            cg[f.id] = (c, t)
        P._callgraph = cg
    return cg


def may_throw_ids(P):
    """ids of repository functions that contain, or can reach through calls, an explicit throw, a checked access or
    a user-supplied callback"""
    r = getattr(P, '_maythrow', None)
    if r is not None:
        return r
    cg = callgraph(P)
    rev = {}
    bad = set()
    for i, (c, t) in cg.items():
        if t:
            bad.add(i)
        for x in c:
            rev.setdefault(x, set()).add(i)
            d = P.decls.get(x)
            if d is not None and x not in P.fns and d.qn in THROWING_EXT:
                bad.add(i)
    todo = list(bad)
    while todo:
        x = todo.pop()
        for y in rev.get(x, ()):
            if y not in bad:
                bad.add(y)
                todo.append(y)
    P._maythrow = bad
    return bad
