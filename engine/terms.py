"""Hash-consed terms: places (storage) and values share one language.

places: root(kind,id) fld(base,name) elem(base,idx) sub(base,name,args..) deref(ptr) alt(base,type)
values: c/cb/cf/cs/null constants, addr(place), iter(container,pos), call(name,args..), arithmetic,
        eq/lt/not/and/or, sel(cond,a,b), phi(..), obj(base,(name,value)..), upd(uid,method,prev,args..),
        lv(loop,place), clos(uid), fresh(uid)
An unmodified place reads as itself, so a term built only from param/this roots is a function of the
initial state."""


class T:
    __slots__ = ('op', 'a', 'id', 'size')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        s = 1
        for x in a:
            if isinstance(x, T):
                s += x.size
            elif isinstance(x, tuple):
                s += 1
        t.size = min(s, 10 ** 9)
        _tab[k] = t
    return t


TRUE = mk('cb', True)
FALSE = mk('cb', False)
NULL = mk('null')
VOID = mk('void')
UNK = mk('unk')


def cint(n):
    return mk('c', int(n))


def cstr(s):
    return mk('cs', s)


def is_const(t):
    return t.op in ('c', 'cb', 'cf', 'cs', 'null', 'enum')


def NOT(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.a[0]
    return mk('not', t)


def AND(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    return mk('and', a, b)


def OR(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return a
    return mk('or', a, b)


def _zero_like(t):
    return t.op == 'c' and t.a[0] == 0


def EQ(a, b):
    if a is b:
        return TRUE
    if a.op in ('c', 'cs') and b.op == a.op:
        return TRUE if a.a == b.a else FALSE
    if a.op == 'cb' and b.op == 'cb':
        return FALSE
    if a.op == 'enum' and b.op == 'enum':
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x is TRUE:
            return y
        if x is FALSE:
            return NOT(y)
        if x.op == 'c' and x.a[0] == 0 and is_bool_term(y):
            return NOT(y)
        if x.op == 'c' and x.a[0] == 1 and is_bool_term(y):
            return y
        if x.op == 'cs' and x.a[0] == '':
            return EQ(SIZE(y), cint(0))
        if x.op == 'null' and y.op in ('addr', 'clos'):
            return FALSE
    if a.op == 'iter' and b.op == 'iter' and a.a[0] is b.a[0]:
        return EQ(a.a[1], b.a[1])
    if a.op == 'sel' and is_const(b) and (is_const(a.a[1]) or is_const(a.a[2])) and a.size < 60:
        return SEL(a.a[0], EQ(a.a[1], b), EQ(a.a[2], b))
    if b.op == 'sel' and is_const(a) and (is_const(b.a[1]) or is_const(b.a[2])) and b.size < 60:
        return SEL(b.a[0], EQ(b.a[1], a), EQ(b.a[2], a))
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def is_bool_term(t):
    return t.op in ('eq', 'lt', 'not', 'and', 'or', 'cb', 'more', 'altis')


def SIZE(c):
    if c.op == 'cs':
        return cint(len(c.a[0]))
    if c.op == 'list':
        return cint(len(c.a))
    return mk('size', c)


def LT(a, b, unsigned=False):
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.a[0] < b.a[0] else FALSE
    # 0 < size(x)  <=>  size(x) != 0
    if a.op == 'c' and a.a[0] == 0 and b.op == 'size':
        return NOT(EQ(b, a))
    # size(x) < 1
    if b.op == 'c' and b.a[0] == 1 and a.op == 'size':
        return EQ(a, cint(0))
    # integers: c < b with constant:  keep;  a < b+1 / a+(-1) < b left alone
    return mk('lt', a, b)


def ADD(*xs):
    acc = 0
    accf = None
    rest = {}
    order = []

    def put(t, k):
        if t in rest:
            rest[t] += k
        else:
            rest[t] = k
            order.append(t)

    def go(x, k):
        nonlocal acc
        if x.op == 'c':
            acc += k * x.a[0]
        elif x.op == 'add':
            for y in x.a:
                go(y, k)
        elif x.op == 'mul' and x.a[0].op == 'c':
            r = x.a[1:]
            go(r[0] if len(r) == 1 else mk('mul', *r), k * x.a[0].a[0])
        else:
            put(x, k)
    for x in xs:
        go(x, 1)
    out = []
    for t in sorted((t for t in order if rest[t] != 0), key=lambda t: t.id):
        k = rest[t]
        out.append(t if k == 1 else MUL(cint(k), t))
    if acc != 0 or not out:
        out.append(cint(acc))
    if len(out) == 1:
        return out[0]
    return mk('add', *out)


def NEG(x):
    return MUL(cint(-1), x)


def SUB(a, b):
    return ADD(a, NEG(b))


def MUL(*xs):
    acc = 1
    fs = []

    def go(x):
        nonlocal acc
        if x.op == 'c':
            acc *= x.a[0]
        elif x.op == 'mul':
            for y in x.a:
                go(y)
        else:
            fs.append(x)
    for x in xs:
        go(x)
    if acc == 0:
        return cint(0)
    # distribute over sums (small)
    for i, f in enumerate(fs):
        if f.op == 'add' and f.size < 40 and len(fs) <= 4:
            others = fs[:i] + fs[i + 1:]
            return ADD(*[MUL(cint(acc), y, *others) for y in f.a])
    fs.sort(key=lambda t: t.id)
    if not fs:
        return cint(acc)
    if acc != 1:
        fs = [cint(acc)] + fs
    if len(fs) == 1:
        return fs[0]
    return mk('mul', *fs)


def SEL(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return SEL(c.a[0], b, a)
    if a.op == 'sel' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'sel' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return NOT(c)
    if b is FALSE:
        return AND(c, a)
    if a is TRUE:
        return OR(c, b)
    if a is FALSE:
        return AND(NOT(c), b)
    if b is TRUE:
        return OR(NOT(c), a)
    if a.size + b.size + c.size > 4000:
        return PHI([a, b])
    return mk('sel', c, a, b)


def PHI(vals):
    s = {}
    for v in vals:
        if v.op == 'phi':
            for x in v.a:
                s[x] = 1
        else:
            s[v] = 1
    l = sorted(s, key=lambda t: t.id)
    if len(l) == 1:
        return l[0]
    if sum(t.size for t in l) > 20000:
        return mk('phibig', *[t.id for t in l])
    return mk('phi', *l)


def DEREF(p):
    if p.op == 'addr':
        return p.a[0]
    if p.op == 'iter':
        return mk('elem', p.a[0], p.a[1])
    if p.op == 'phi':
        return PHI([DEREF(x) for x in p.a])
    if p.op == 'sel':
        return SEL(p.a[0], DEREF(p.a[1]), DEREF(p.a[2]))
    return mk('deref', p)


def ADDR(pl):
    if pl.op == 'deref':
        return pl.a[0]
    return mk('addr', pl)


PLACE_OPS = frozenset(['root', 'fld', 'elem', 'sub', 'deref', 'alt'])


def FLD(base, name):
    if base.op == 'phi':
        return PHI([FLD(x, name) for x in base.a])
    if base.op == 'sel':
        return SEL(base.a[0], FLD(base.a[1], name), FLD(base.a[2], name))
    if base.op == 'obj':
        for x in base.a[1:]:
            if x[0] == name:
                return x[1]
        return FLD(base.a[0], name)
    return mk('fld', base, name)


def ELEM(base, idx):
    if base.op == 'phi':
        return PHI([ELEM(x, idx) for x in base.a])
    if base.op == 'sel':
        return SEL(base.a[0], ELEM(base.a[1], idx), ELEM(base.a[2], idx))
    if base.op == 'list' and idx.op == 'c' and 0 <= idx.a[0] < len(base.a):
        return base.a[idx.a[0]]
    return mk('elem', base, idx)


def prefixes(p):
    """p and every enclosing place"""
    out = [p]
    while p.op in ('fld', 'elem', 'sub', 'alt'):
        p = p.a[0]
        out.append(p)
    return out


def root_of(p):
    while p.op in ('fld', 'elem', 'sub', 'alt'):
        p = p.a[0]
    return p


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        st.append(z)
    return seen


def contains(t, pred):
    for x in subterms(t):
        if pred(x):
            return True
    return False


def subst(t, f, memo=None):
    """bottom-up rebuild; f(term)->replacement or None, applied top-down first"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        ch = False
        na = []
        for y in t.a:
            if isinstance(y, T):
                z = subst(y, f, memo)
                ch = ch or z is not y
                na.append(z)
            elif isinstance(y, tuple):
                z = tuple(subst(q, f, memo) if isinstance(q, T) else q for q in y)
                ch = ch or any(p is not q for p, q in zip(y, z))
                na.append(z)
            else:
                na.append(y)
        r = rebuild(t.op, na) if ch else t
    memo[t] = r
    return r


def rebuild(op, a):
    if op == 'not':
        return NOT(*a)
    if op == 'and':
        return AND(*a)
    if op == 'or':
        return OR(*a)
    if op == 'eq':
        return EQ(*a)
    if op == 'lt':
        return LT(*a)
    if op == 'add':
        return ADD(*a)
    if op == 'mul':
        return MUL(*a)
    if op == 'sel':
        return SEL(*a)
    if op == 'phi':
        return PHI(a)
    if op == 'deref':
        return DEREF(*a)
    if op == 'fld':
        return FLD(*a)
    if op == 'elem':
        return ELEM(*a)
    if op == 'size':
        return SIZE(*a)
    return mk(op, *a)


def show(t, depth=7):
    if not isinstance(t, T):
        return str(t)
    if depth == 0:
        return '..'
    s = lambda x: show(x, depth - 1)
    o, a = t.op, t.a
    if o == 'c' or o == 'cf':
        return str(a[0])
    if o == 'cb':
        return 'true' if a[0] else 'false'
    if o == 'cs':
        return repr(a[0])
    if o == 'root':
        if a[0] == 'this':
            return 'this'
        return '%s' % (a[-1],) if a[0] != 'loc' else '%s#%s' % (a[2], a[1])
    if o == 'fld':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'elem':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'not':
        return '!' + s(a[0])
    if o in ('and', 'or', 'eq', 'lt', 'add', 'mul'):
        sy = {'and': ' && ', 'or': ' || ', 'eq': '==', 'lt': '<', 'add': '+', 'mul': '*'}[o]
        return '(' + sy.join(s(x) for x in a) + ')'
    if o == 'call':
        return '%s(%s)' % (a[0].replace('cpb::', ''), ', '.join(s(x) for x in a[1:]))
    if o == 'obj':
        return '{%s|%s}' % (s(a[0]), ', '.join('%s=%s' % (k, s(v)) for k, v in a[1:]))
    if o == 'upd':
        return 'upd(%s %s)' % (s(a[2]), a[1])
    if o == 'lv':
        return 'lv%s(%s)' % (a[0], s(a[1]))
    if o == 'enum':
        return a[0].split('::')[-1]
    return '%s(%s)' % (o, ', '.join(s(x) if isinstance(x, T) else str(x) for x in a))


_lr = {}
_EMPTY = frozenset()
_LOCAL = ('loc', 'tmp', 'cap', 'heap', 'exc')


def local_roots(t):
    r = _lr.get(t)
    if r is not None:
        return r
    if t.op == 'root':
        r = frozenset([t]) if t.a[0] in _LOCAL else _EMPTY
    else:
        acc = None
        r = _EMPTY
        for y in t.a:
            for z in (y if isinstance(y, tuple) else (y,)):
                if isinstance(z, T):
                    q = local_roots(z)
                    if q and q is not r:
                        r = r | q if r else q
    _lr[t] = r
    return r
