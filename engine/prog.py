"""Program database: loads the facts dumped by tool/extract.cpp for a set of translation units."""
import json, os, re, gc


def strip_targs(s):
    """'A<x<y>>::f' -> 'A::f' (template arguments of every component dropped)"""
    if '<' not in s:
        return s
    out = []
    depth = 0
    i = 0
    n = len(s)
    while i < n:
        if depth == 0 and s.startswith('operator', i):
            # keep operator spelling
            m = re.match(r'operator(<=>|<<=|>>=|<<|>>|<=|>=|<|>|->\*|->|\(\)|\[\]|[^\w\s]+)?', s[i:])
            out.append(m.group(0))
            i += len(m.group(0))
            continue
        c = s[i]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


class Type:
    __slots__ = ('k', 's', 'const', 'to', 'rec', 'rid', 'targs', 'bits', 'unsigned', 'short')

    def __repr__(self):
        return 'Type(%s)' % self.s

    def strip_ref(self):
        t = self
        while t.k in ('lref', 'rref') and t.to is not None:
            t = t.to
        return t


class Decl:
    __slots__ = ('id', 'qn', 'n', 'params', 'ret', 'op', 'targs', 'method', 'const', 'static', 'virtual', 'pure',
                 'access', 'cls', 'clsid', 'implicit', 'copyassign', 'moveassign', 'conv', 'ctor', 'copyctor',
                 'movector', 'dtor', 'deleted', 'noreturn', 'repo', 'file', 'line', 'clst', 'variadic')

    def __repr__(self):
        return 'Decl(%s)' % self.qn


class Fn:
    __slots__ = ('id', 'qn', 'file', 'line', 'p', 'inits', 'b', 'tag', 'decl', '_skey')

    def __repr__(self):
        return 'Fn(%s)' % self.qn


class Rec:
    pass


class Prog:
    def __init__(self):
        self.types = {}      # (tag, id) -> Type
        self.tcache = {}     # spelling key -> Type
        self.decls = {}
        self.fns = {}
        self.recs = {}       # id -> Rec
        self.recs_by_qn = {}
        self.gvars = {}
        self.tus = []
        self.refields = None

    def load(self, path, tag):
        gc.disable()
        raw_types = {}
        recs, decls, fns, gvars = [], [], [], []
        with open(path) as f:
            for line in f:
                o = json.loads(line)
                t = o['T']
                if t == 'type':
                    raw_types[o['id']] = o
                elif t == 'rec':
                    recs.append(o)
                elif t == 'decl':
                    decls.append(o)
                elif t == 'fn':
                    fns.append(o)
                elif t == 'gvar':
                    gvars.append(o)
                elif t == 'tu':
                    self.tus.append(o)
        tmap = {}
        for i, o in raw_types.items():
            T = Type()
            T.k = o['k']; T.s = o['s']; T.const = o.get('const', False); T.to = None
            T.rec = o.get('rec'); T.rid = o.get('rid'); T.targs = o.get('targs')
            T.bits = o.get('bits'); T.unsigned = o.get('unsigned', False)
            T.short = strip_targs(T.rec) if T.rec else None
            tmap[i] = T
        for i, o in raw_types.items():
            T = tmap[i]
            if 'to' in o:
                T.to = tmap.get(o['to'])
            if T.targs:
                T.targs = [tmap.get(a) if isinstance(a, int) else a for a in T.targs]
        for i, T in tmap.items():
            self.types[(tag, i)] = T
        for o in recs:
            if o['id'] in self.recs:
                continue
            R = Rec()
            R.id = o['id']; R.qn = o['qn']; R.short = strip_targs(o['qn'])
            R.repo = o['repo']; R.file = o['file']; R.line = o['line']
            R.lambda_ = o.get('lambda', False); R.callop = o.get('callop')
            R.fields = []
            for f in o.get('fields', []):
                f = dict(f); f['t'] = tmap.get(f['t']); R.fields.append(f)
            R.bases = [tmap.get(b) for b in o.get('bases', [])]
            R.methods = o.get('methods', [])
            R.statics = o.get('statics', [])
            R.dtor = o.get('dtor')
            R.tag = tag
            self.recs[R.id] = R
            self.recs_by_qn.setdefault(R.short, []).append(R)
        for o in decls:
            if o['id'] in self.decls:
                continue
            D = Decl()
            for k in Decl.__slots__:
                setattr(D, k, o.get(k))
            D.qn = strip_targs(o['qn'])
            D.n = strip_targs(o['n'])
            D.cls = strip_targs(o['cls']) if o.get('cls') else None
            D.params = [tmap.get(p) for p in o['params']]
            D.ret = tmap.get(o['ret'])
            D.targs = [tmap.get(a) if isinstance(a, int) else a for a in (o.get('targs') or [])]
            D.clst = tmap.get(o['clst']) if o.get('clst') else None
            D.op = o.get('op') or ''
            self.decls[D.id] = D
        for o in fns:
            if o['id'] in self.fns:
                continue
            F = Fn()
            F.id = o['id']; F.qn = strip_targs(o['qn']); F.file = o['file']; F.line = o['line']
            F.p = o['p']; F.inits = o.get('inits'); F.b = o.get('b'); F.tag = tag
            F._skey = None
            F.decl = self.decls.get(F.id)
            self.fns[F.id] = F
        for o in gvars:
            o['tag'] = tag
            o['t'] = tmap.get(o['t'])
            self.gvars[(o['qn'], o['file'], o['line'])] = o
        gc.enable()

    def finish(self):
        self.reffields = {}
        for R in self.recs.values():
            for f in R.fields:
                if f['t'] is not None and f['t'].k in ('lref', 'rref'):
                    self.reffields[(R.short, f['n'])] = True
        self.overriders = {}
        for R in self.recs.values():
            for m in R.methods:
                for o in m.get('overrides', []):
                    self.overriders.setdefault(o, []).append(m['id'])
        self.fns_by_qn = {}
        for F in self.fns.values():
            self.fns_by_qn.setdefault(F.qn, []).append(F)
        # base classes (short names)
        self.base_names = {}
        for R in self.recs.values():
            self.base_names.setdefault(R.short, [b.short for b in R.bases if b is not None and b.short])

    def ty(self, tag, i):
        return self.types.get((tag, i))

    def all_overriders(self, fid):
        out = []
        todo = [fid]
        seen = set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in self.overriders.get(x, []):
                out.append(y)
                todo.append(y)
        return out

    def fn(self, qn, **kw):
        """all functions with a body and this (template-argument-free) qualified name"""
        r = self.fns_by_qn.get(qn, [])
        return r

    def rec(self, qn):
        r = self.recs_by_qn.get(qn, [])
        return r[0] if r else None
