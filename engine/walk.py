"""Flow-graph builder.

Walks an entry function of the resolved program, inlining every repository callee whose body is known,
and produces one flow graph whose nodes carry resolved events (branches on normalised condition terms,
writes, mutating calls, user callbacks, throws, lock operations).  Values are hash-consed terms over the
initial state; loops are widened (every place written in the body becomes unknown at the head), so each
graph path over-approximates the executions of the source.  Nothing is executed or solved."""
import sys
from terms import *
from prog import strip_targs

sys.setrecursionlimit(20000)


class Incomplete(Exception):
    pass


class Node:
    __slots__ = ('id', 'kind', 'd', 'line', 'file', 'stack', 'succ', 'pred')

    def __repr__(self):
        return '<%d %s %s @%s:%d>' % (self.id, self.kind, {k: v for k, v in self.d.items()},
                                      (self.file or '').split('/')[-1], self.line)

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    def loc(self):
        f = (self.file or '').replace('/repo/', '')
        return '%s:%d' % (f, self.line)

    def where(self):
        return self.loc() + (' in ' + self.stack[-1][0] if self.stack else '')


class Graph:
    def __init__(self):
        self.nodes = []
        self.entry = None
        self.exits = []       # normal exit nodes
        self.throws = []      # exceptional exit nodes
        self.result = None
        self.closures = {}
        self.skipped = {}     # qn -> count : callees not inlined
        self.inlined = {}     # fn id -> count
        self.final_env = None


def disjoint(k, p):
    """are two parts of the same container known to be different elements?"""
    if k.op == 'sub':
        if k.a[1] != p.a[1] or k.a[1] not in ('row', 'col') or len(k.a) != 3 or len(p.a) != 3:
            return False
        pairs = [(k.a[2], p.a[2])]
    elif k.a[1].op == 'ix' and p.a[1].op == 'ix' and len(k.a[1].a) == len(p.a[1].a):
        pairs = list(zip(k.a[1].a, p.a[1].a))
    else:
        pairs = [(k.a[1], p.a[1])]
    for x, y in pairs:
        d = SUB(x, y)
        if d.op == 'c' and d.a[0] != 0:
            return True
    return False


class State:
    __slots__ = ('env', 'front', 'path')

    def __init__(self, env, front, path=()):
        self.env = env
        self.front = front
        self.path = path

    def fork(self):
        return State(dict(self.env), list(self.front), self.path)


class Frame:
    __slots__ = ('fn', 'tag', 'this', 'vars', 'uid', 'parent', 'returns', 'scope_base', 'file', 'retref', 'thist',
                 'alias_rets')


class Loop:
    __slots__ = ('breaks', 'continues', 'scope_base')


HANDLE_TYPES = {'Eigen::Ref', 'Eigen::Map', 'Eigen::Block', 'Eigen::VectorBlock', 'Eigen::ArrayWrapper',
                'Eigen::MatrixWrapper', 'Eigen::CwiseUnaryView', 'Eigen::NoAlias', 'Eigen::MapBase',
                'std::reference_wrapper', 'Eigen::CommaInitializer'}
ITER_PREFIX = ('__gnu_cxx::__normal_iterator', 'std::_Node_iterator', 'std::_Node_const_iterator', 'std::__detail::_Node',
               'std::_Rb_tree_', 'std::reverse_iterator', 'std::move_iterator', 'std::_Deque_iterator',
               'std::__wrap_iter', 'std::_Bit_')
SMART = ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr')
CONTAINERS = {'std::vector', 'std::array', 'std::deque', 'std::basic_string', 'std::__cxx11::basic_string',
              'std::unordered_map', 'std::map', 'std::set', 'std::unordered_set', 'std::initializer_list', 'std::queue',
              'std::list', 'std::unordered_multimap', 'std::multimap', 'std::stack'}
MAPS = {'std::unordered_map', 'std::map', 'std::unordered_multimap', 'std::multimap'}
IDENT_METHODS = {'derived', 'array', 'matrix', 'eval', 'noalias', 'const_derived', 'const_cast_derived', 'cast', 'get',
                 'nestedExpression', 'c_str', 'getDerived', 'asDiagonal_', 'str_', 'allocator_'}
SUB_METHODS = {'head', 'segment', 'tail', 'row', 'col', 'block', 'diagonal', 'topRows', 'bottomRows', 'leftCols',
               'rightCols', 'middleRows', 'middleCols', 'topLeftCorner', 'triangularView', 'reverse_', 'innerVector',
               'colwise', 'rowwise', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'}
ELEM_METHODS = {'coeff', 'coeffRef', 'operator()', 'operator[]', 'insert', 'at'}
ALGOS = {'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'for_each', 'transform', 'copy_if',
         'remove_if', 'accumulate', 'sort', 'stable_sort', 'partition', 'stable_partition', 'generate', 'partial_sort',
         'unique', 'remove', 'find', 'copy', 'fill', 'iota', 'reverse', 'count', 'min_element', 'max_element',
         'lower_bound', 'upper_bound', 'equal', 'swap_ranges', 'generate_n', 'fill_n', 'copy_n', 'adjacent_find',
         'binary_search', 'nth_element', 'rotate', 'is_sorted', 'mismatch', 'for_each_n', 'move_backward',
         'partial_sum', 'inner_product', 'minmax_element', 'remove_copy_if', 'replace_if', 'replace', 'move'}
STD_EXC_BASES = {
    'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception',
    'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error',
    'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
    'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
    'std::bad_alloc': 'std::exception', 'std::bad_function_call': 'std::exception',
    'std::system_error': 'std::runtime_error', 'std::bad_cast': 'std::exception',
    'mapbox::util::bad_variant_access': 'std::runtime_error',
}
LOCKS = {'std::unique_lock', 'std::lock_guard', 'std::scoped_lock', 'std::shared_lock'}

# repository helpers which are pure functions of their arguments: kept as call terms
DEFAULT_PURE = {'cpb::slice', 'cpb::concat', 'cpb::make_integer_range', 'cpb::num::force_cast', 'cpb::num::match_sort_',
                'cpb::fmt::with_suffix', 'cpb::eigen_cast', 'cpb::sum', 'cpb::any_of_', 'cpb::num::conjugate',
                'cpb::num::detail::conjugate', 'cpb::detail::make_integer_range', 'cpb::num::aligned_size',
                'cpb::num::is_equal_', 'cpb::num::approx_equal_'}


class Walker:
    def __init__(self, prog, opaque=(), pure=DEFAULT_PURE, max_nodes=250000, max_depth=70, record_reads=False,
                 usercall_throws=True, at_throws=True, no_inline_ext=(), inline_pred=None, throwing=()):
        self.P = prog
        self.opaque = set(opaque)
        self.pure = set(pure)
        self.max_nodes = max_nodes
        self.max_depth = max_depth
        self.record_reads = record_reads
        self.usercall_throws = usercall_throws
        self.at_throws = at_throws
        self.inline_pred = inline_pred
        self.throwing = set(throwing)
        self.G = Graph()
        self.uid = 0
        self.frames = []
        self.stack = []          # ((qn, line), ...)
        self.idstack = []
        self.dry = 0
        self.written = None      # set of places in dry mode
        self.tries = []
        self.scopes = []         # list of lists of cleanup thunks (place, kind)
        self.loops = []
        self.st = None
        self.clos = {}
        self.loops_open = []
        self.clos_vars = {}
        self.ranges = {}         # loop over an iterator range -> (index, first, last)
        self.lvinfo = {}         # loop value -> [value before the loop, value after an iteration]
        self.curline = 0
        self.dead = False
        self.handle_alias = True

    # ------------------------------------------------------------------ util
    def fresh(self, why=''):
        self.uid += 1
        return mk('fresh', self.uid, why)

    def newroot(self, kind, name=''):
        self.uid += 1
        return mk('root', kind, self.uid, name)

    def node(self, kind, **d):
        if self.dry:
            return None
        if len(self.G.nodes) > self.max_nodes:
            raise Incomplete('node budget exceeded in %s' % (self.stack[0][0] if self.stack else '?'))
        n = Node()
        n.id = len(self.G.nodes)
        n.kind = kind
        n.d = d
        n.line = self.curline
        n.file = self.frames[-1].file if self.frames else ''
        n.stack = tuple(self.stack)
        n.succ = []
        n.pred = []
        self.G.nodes.append(n)
        for p, lab in self.st.front:
            p.succ.append((n, lab))
            n.pred.append((p, lab))
        self.st.front = [(n, None)]
        return n

    @property
    def env(self):
        return self.st.env

    def alive(self):
        return not self.dead

    def kill_state(self):
        self.dead = True
        self.st = State({}, [])

    # ------------------------------------------------------------------ environment
    def read(self, p):
        """content of a place as a term"""
        if p.op == 'phi':
            return PHI([self.read(x) for x in p.a])
        if p.op == 'sel':
            return SEL(p.a[0], self.read(p.a[1]), self.read(p.a[2]))
        if p.op not in PLACE_OPS:
            return p
        env = self.st.env
        v = env.get(p)
        if v is not None:
            return self._overlay(p, v)
        # sub-entries?
        base = None
        q = p
        path = []
        while q.op in ('fld', 'elem', 'sub', 'alt'):
            path.append(q)
            q = q.a[0]
            v = env.get(q)
            if v is not None:
                base = v
                break
        if base is not None:
            for x in reversed(path):
                base = self._project(base, x)
        else:
            # maybe deref of a pointer whose own content changed is handled by evaluation order
            base = p
        return self._overlay(p, base)

    def _project(self, v, x):
        if x.op == 'fld':
            return FLD(v, x.a[1])
        if x.op == 'elem':
            return ELEM(v, x.a[1])
        if x.op == 'alt':
            return self.alt_of(v, x.a[1])
        return mk(x.op, v, *x.a[1:])

    def _overlay(self, p, base):
        """add direct sub-entries of p found in env to the base value"""
        kids = self.kids.get(p)
        if not kids:
            return base
        env = self.st.env
        flds = []
        for k in sorted(kids, key=lambda t: t.id):
            if k.op == 'fld':
                v = self.read(k) if (k in env or self._has_sub(k)) else None
                if v is not None:
                    flds.append((k.a[1], v))
            elif k in env or self._has_sub(k):
                # element-level changes: content differs from base
                v = self.read(k)
                if v is not k:
                    flds.append((k, v))
        if not flds:
            return base
        names = dict(flds)
        if base.op == 'obj':
            for x in base.a[1:]:
                if x[0] not in names:
                    flds.append(x)
            base = base.a[0]
        flds = [f for f in flds if not (isinstance(f[0], str) and f[1] is FLD(base, f[0]))]
        if not flds:
            return base
        flds.sort(key=lambda x: (0, x[0]) if isinstance(x[0], str) else (1, str(x[0].id)))
        return mk('obj', base, *flds)

    def _has_sub(self, p):
        for k in self.kids.get(p, ()):
            if k in self.st.env or self._has_sub(k):
                return True
        return False

    kids = None

    def _reg(self, p):
        while p.op in ('fld', 'elem', 'sub', 'alt'):
            b = p.a[0]
            s = self.kids.get(b)
            if s is None:
                s = self.kids[b] = set()
            if p in s:
                return
            s.add(p)
            p = b

    def _drop_sub(self, p):
        for k in self.kids.get(p, ()):
            self.st.env.pop(k, None)
            self._drop_sub(k)

    def setval(self, p, v, note=True):
        """strong update"""
        if p.op in ('phi', 'sel'):
            alts = p.a if p.op == 'phi' else p.a[1:]
            for x in alts:
                old = self.read(x)
                self.setval(x, PHI([old, v]) if p.op == 'phi' else
                            (SEL(p.a[0], v, old) if x is p.a[1] else SEL(p.a[0], old, v)))
            return
        if p.op not in PLACE_OPS:
            return
        if p.op == 'alt':
            # the active alternative is the one being stored to
            return self.setval(p.a[0], mk('var', p.a[1], v), note)
        if note and self.written is not None:
            self.written.add(p)
        self._drop_sub(p)
        # weak effect on may-aliasing elements of the same container
        if p.op in ('elem', 'sub'):
            for k in self.kids.get(p.a[0], ()):
                if k is p or k.op not in ('elem', 'sub'):
                    continue
                if k.op == p.op and disjoint(k, p):
                    continue
                if k in self.st.env or self._has_sub(k):
                    old = self.read(k)
                    self._drop_sub(k)
                    self.st.env[k] = PHI([old, v]) if k.op == p.op else mk('mixed', old, v)
        self._reg(p)
        self.st.env[p] = v

    def write(self, p, v, how='='):
        self.node('write', place=p, value=v, how=how)
        self.setval(p, v)

    def mut(self, p, method, args=()):
        if p is None:
            return None
        if p.op in ('phi', 'sel'):
            n = self.node('mut', place=p, method=method, args=tuple(args))
            for x in (p.a if p.op == 'phi' else p.a[1:]):
                if isinstance(x, T) and x.op in PLACE_OPS:
                    self.uid += 1
                    self.setval(x, mk('upd', self.uid, method, self.read(x), *args))
            return
        n = self.node('mut', place=p, method=method, args=tuple(args))
        if p.op in PLACE_OPS:
            self.uid += 1
            if n is not None:
                n.d['uid'] = self.uid
            # constructor-insensitive: the new content depends on the old content and the arguments
            self.setval(p, mk('upd', self.uid, method, self.read(p), *args))
        return n

    # ------------------------------------------------------------------ joins
    def join(self, states, vals=None):
        """states: list of State; vals: optional list of per-state value terms. -> (State, value)"""
        if not states:
            return None, None
        if len(states) == 1:
            return states[0], (vals[0] if vals else None)
        # common path prefix
        paths = [s.path for s in states]
        k = 0
        m = min(len(p) for p in paths)
        while k < m and all(p[k] == paths[0][k] for p in paths):
            k += 1
        suf = [p[k:] for p in paths]
        keys = {}
        for s in states:
            for key in s.env:
                keys[key] = 1
        res = {}
        cur = self.st
        dead = self.dead
        for key in keys:
            vs = []
            miss = False
            first = None
            same = True
            for s in states:
                v = s.env.get(key)
                if v is None:
                    miss = True
                    break
                if first is None:
                    first = v
                elif v is not first:
                    same = False
                vs.append(v)
            if not miss and same:
                res[key] = first
                continue
            vs = []
            for s in states:
                v = s.env.get(key)
                if v is None:
                    self.st = s
                    v = self._read_nooverlay(key)
                vs.append(v)
            res[key] = self.gate(suf, vs)
        self.st = cur
        self.dead = dead
        front = []
        for s in states:
            front.extend(s.front)
        v = None
        if vals is not None:
            v = self.gate(suf, vals)
        return State(res, front, paths[0][:k]), v

    def _read_nooverlay(self, p):
        env = self.st.env
        q = p
        path = []
        base = None
        while q.op in ('fld', 'elem', 'sub', 'alt'):
            path.append(q)
            q = q.a[0]
            v = env.get(q)
            if v is not None:
                base = v
                break
        if base is None:
            return p
        for x in reversed(path):
            base = self._project(base, x)
        return base

    def gate(self, suf, vals):
        f = vals[0]
        if all(v is f for v in vals):
            return f
        r = self._gate([(s, v) for s, v in zip(suf, vals)])
        if r is None:
            return PHI(vals)
        return r

    def _gate(self, items):
        f = items[0][1]
        if all(v is f for _, v in items):
            return f
        if any(not s for s, _ in items):
            return None
        c = items[0][0][0][0]
        if c is None or not all(s[0][0] is c for s, _ in items):
            return None
        a = [(s[1:], v) for s, v in items if s[0][1]]
        b = [(s[1:], v) for s, v in items if not s[0][1]]
        ra = self._gate(a) if a else None
        rb = self._gate(b) if b else None
        if not a:
            return rb
        if not b:
            return ra
        if ra is None or rb is None:
            return None
        return SEL(c, ra, rb)

    # ------------------------------------------------------------------ branching on terms
    def branch(self, term):
        """split the current state; returns (T state or None, F state or None)"""
        t = term
        if t.op == 'not':
            a, b = self.branch(t.a[0])
            return b, a
        if t.op in ('and', 'or', 'sel'):
            k = len(self.st.path)
            a, b = self._branch(t)
            # remember the decision as a whole, so that later joins can be gated on it
            if a is not None and b is not None:
                a.path = a.path[:k] + ((t, True),) + a.path[k:]
                b.path = b.path[:k] + ((t, False),) + b.path[k:]
            return a, b
        return self._branch(t)

    def _branch(self, t):
        s0 = self.st
        if t.op == 'and':
            a, b = self.branch(t.a[0])
            if a is None:
                return None, b
            self.st = a
            c, d = self.branch(t.a[1])
            fs = [x for x in (b, d) if x is not None]
            return c, (self.join(fs)[0] if fs else None)
        if t.op == 'or':
            a, b = self.branch(t.a[0])
            if b is None:
                return a, None
            self.st = b
            c, d = self.branch(t.a[1])
            ts = [x for x in (a, c) if x is not None]
            return (self.join(ts)[0] if ts else None), d
        if t.op == 'sel' and t.size < 400:
            a, b = self.branch(t.a[0])
            ts, fs = [], []
            for s, v in ((a, t.a[1]), (b, t.a[2])):
                if s is None:
                    continue
                self.st = s
                x, y = self.branch(v)
                if x is not None:
                    ts.append(x)
                if y is not None:
                    fs.append(y)
            return (self.join(ts)[0] if ts else None), (self.join(fs)[0] if fs else None)
        if not self.dry:
            if t is TRUE:
                return s0, None
            if t is FALSE:
                return None, s0
            # value implied by the current path
            for (c, pol) in reversed(s0.path):
                if c is t:
                    return (s0, None) if pol else (None, s0)
        n = self.node('branch', cond=t)
        a = State(dict(s0.env), [(n, True)] if n else [], s0.path + ((t, True),))
        b = State(s0.env, [(n, False)] if n else [], s0.path + ((t, False),))
        return a, b

    def truth(self, v, t=None):
        """normalise a value used as a condition"""
        if is_bool_term(v) or v.op in ('sel', 'phi', 'call', 'lv') and (t is None or t.k == 'bool'):
            return v
        if t is not None and t.k == 'bool':
            return v
        if v.op == 'c':
            return TRUE if v.a[0] else FALSE
        if v.op == 'null':
            return FALSE
        if v.op in ('addr', 'clos'):
            return TRUE
        if t is not None and t.k == 'ptr':
            return NOT(EQ(v, NULL))
        return NOT(EQ(v, cint(0)))

    def cond(self, e):
        """evaluate a condition expression; returns (T,F) states, keeping correlations of inlined bool helpers"""
        if self.dead:
            return None, None
        k = e['k']
        if k == 'un' and e['op'] == '!':
            a, b = self.cond(e['x'])
            return b, a
        if k == 'bin' and e['op'] in ('&&', '||'):
            base = self.st.path
            a, b = self.cond(e['x'])
            tx = self.decision(a, b, len(base))
            conj = e['op'] == '&&'
            go, out = (a, b) if conj else (b, a)
            if go is None:
                self.st, self.dead = out, out is None
                return (None, out) if conj else (out, None)
            gpath = go.path
            self.st = go
            self.dead = False
            c, d = self.cond(e['y'])
            ty = self.decision(c, d, len(gpath))
            if conj:
                ts, fs = [c], [b, d]
            else:
                ts, fs = [a, c], [d]
            ts = [x for x in ts if x is not None]
            fs = [x for x in fs if x is not None]
            x = self.join(ts)[0] if ts else None
            y = self.join(fs)[0] if fs else None
            if tx is not None and ty is not None and x is not None and y is not None:
                t = AND(tx, ty) if conj else OR(tx, ty)
                pol = True
                while t.op == 'not':
                    t, pol = t.a[0], not pol
                x.path = base + ((t, pol),) + x.path[len(base):]
                y.path = base + ((t, not pol),) + y.path[len(base):]
            return x, y
        if k == 'call':
            outs = self.call(e, split=True)
        else:
            r = self.E(e)
            if self.dead:
                return None, None
            outs = [(self.st, r)]
        ts, fs = [], []
        et = self.ety(e)
        for s, r in outs:
            self.st = s
            self.dead = False
            v = self.truth(self.val(r), et)
            self.curline = e.get('l', self.curline)
            a, b = self.branch(v)
            if a is not None:
                ts.append(a)
            if b is not None:
                fs.append(b)
        if not outs:
            self.dead = True
        return (self.join(ts)[0] if ts else None), (self.join(fs)[0] if fs else None)

    def decision(self, t, f, k):
        """the single term deciding between two states split from a common path of length k"""
        if t is None or f is None or len(t.path) <= k or len(f.path) <= k:
            return None
        (x, p), (y, q) = t.path[k], f.path[k]
        if x is None or x is not y or p == q:
            return None
        return x if p else NOT(x)

    def resume(self, states):
        states = [s for s in states if s is not None]
        if not states:
            self.kill_state()
        else:
            self.dead = False
            self.st = self.join(states)[0]

    # ------------------------------------------------------------------ expressions
    def ety(self, e):
        return self.P.types.get((self.frames[-1].tag, e.get('t')))

    def val(self, r):
        isplace, t = r
        if isplace:
            if self.record_reads and not self.dry:
                self.node('read', place=t)
            return self.read(t)
        return t

    def rv(self, e):
        return self.val(self.E(e))

    def pl(self, e):
        """evaluate to a place (materialising a temporary if needed)"""
        r = self.E(e)
        return self.as_place(r)

    def as_place(self, r):
        if r[0]:
            return r[1]
        if r[1].op in PLACE_OPS and r[1].op != 'root':
            pass
        p = self.newroot('tmp')
        self.setval(p, r[1], note=False)
        return p

    def E(self, e, dest=None):
        if self.dead or e is None:
            return (False, UNK)
        k = e['k']
        f = getattr(self, 'x_' + k, None)
        if f is None:
            return (False, self.fresh('expr-' + k))
        if 'l' in e and k in ('call', 'ctor', 'bin', 'throw', 'un'):
            self.curline = e['l']
        return f(e, dest)

    def x_lit(self, e, dest):
        lk = e['lk']
        v = e['v']
        if lk == 'int' or lk == 'char':
            return (False, cint(int(v)))
        if lk == 'bool':
            return (False, TRUE if v else FALSE)
        if lk == 'float':
            if float(v) == int(v) if abs(float(v)) < 1e15 else False:
                return (False, cint(int(v)))
            return (False, mk('cf', float(v)))
        if lk == 'str':
            return (False, cstr(v))
        return (False, NULL)

    def x_this(self, e, dest):
        p = self.frames[-1].this
        return (False, ADDR(p) if p is not None else self.fresh('this'))

    def x_zero(self, e, dest):
        t = self.ety(e)
        if t is not None:
            if t.k in ('int', 'float', 'enum'):
                return (False, cint(0))
            if t.k == 'bool':
                return (False, FALSE)
            if t.k == 'ptr':
                return (False, NULL)
        return (False, mk('zero', t.s if t else ''))

    def x_ref(self, e, dest):
        dk = e['dk']
        if dk in ('param', 'local'):
            fr = self.frames[-1]
            p = fr.vars.get(e['d'])
            if p is None:
                # a constant of an enclosing function used in a lambda without being captured
                p = next((o.vars[e['d']] for o in reversed(self.frames[:-1]) if o.tag == fr.tag and e['d'] in o.vars), None)
            if p is None:
                p = mk('root', 'unkvar', e['n'], fr.uid)
                fr.vars[e['d']] = p
            return (True, p)
        if dk == 'enum':
            return (False, mk('enum', e['qn']))
        if dk in ('global', 'static'):
            if 'v' in e:
                return (False, cint(int(e['v'])))
            return (True, mk('root', 'glob', e['qn']))
        if dk == 'fn':
            return (False, mk('fnref', e['f']))
        return (False, self.fresh('ref'))

    def is_handle(self, t):
        return t is not None and t.short in HANDLE_TYPES

    def field(self, base, isplace, cls, name, e=None):
        if isplace:
            p = FLD(base, name)
            ref = (cls, name) in self.P.reffields
            if ref or (e is not None and self.is_handle(self.ety(e))):
                v = self.read(p)
                if v.op == 'addr' or ref:
                    return (True, DEREF(v))
            return (True, p)
        v = FLD(base, name)
        if (cls, name) in self.P.reffields or (v.op == 'addr' and e is not None and self.is_handle(self.ety(e))):
            return (True, DEREF(v))
        return (False, v)

    def x_mem(self, e, dest):
        b = self.E(e['b'])
        cls = strip_targs(e.get('cls') or '')
        if e['arrow']:
            v = self.val(b)
            return self.field(DEREF(v), True, cls, e['n'], e)
        return self.field(b[1], b[0], cls, e['n'], e)

    def x_index(self, e, dest):
        b = self.E(e['b'])
        i = self.rv(e['i'])
        bt = self.ety(e['b'])
        if bt is not None and bt.k == 'arr':
            return (b[0], ELEM(b[1], i))
        v = self.val(b)
        return (True, self.ptr_elem(v, i))

    def ptr_elem(self, v, i):
        if v.op == 'addr' and v.a[0].op == 'elem':
            el = v.a[0]
            return ELEM(el.a[0], ADD(el.a[1], i))
        if v.op == 'iter':
            return ELEM(v.a[0], ADD(v.a[1], i))
        if v.op == 'addr':
            if i.op == 'c' and i.a[0] == 0:
                return v.a[0]
            return ELEM(v.a[0], i)
        if v.op in ('phi',):
            return PHI([self.ptr_elem(x, i) for x in v.a])
        if v.op == 'sel':
            return SEL(v.a[0], self.ptr_elem(v.a[1], i), self.ptr_elem(v.a[2], i))
        return ELEM(mk('deref', v), i)

    def ptr_add(self, v, i):
        if v.op == 'addr' and v.a[0].op == 'elem':
            el = v.a[0]
            return mk('addr', ELEM(el.a[0], ADD(el.a[1], i)))
        if v.op == 'iter':
            return mk('iter', v.a[0], ADD(v.a[1], i))
        if v.op == 'phi':
            return PHI([self.ptr_add(x, i) for x in v.a])
        if v.op == 'sel':
            return SEL(v.a[0], self.ptr_add(v.a[1], i), self.ptr_add(v.a[2], i))
        return None

    def is_ptrlike(self, v, t):
        return v.op in ('iter',) or (t is not None and t.k == 'ptr')

    def binop(self, op, x, y, tx=None, ty=None):
        if op in ('+', '-'):
            if self.is_ptrlike(x, tx):
                if self.is_ptrlike(y, ty):
                    if op == '-' and x.op == 'iter' and y.op == 'iter' and x.a[0] is y.a[0]:
                        return SUB(x.a[1], y.a[1])
                    if op == '-' and x.op == 'addr' and y.op == 'addr' and x.a[0].op == 'elem' and y.a[0].op == 'elem' \
                            and x.a[0].a[0] is y.a[0].a[0]:
                        return SUB(x.a[0].a[1], y.a[0].a[1])
                    return mk('op', op, x, y)
                r = self.ptr_add(x, y if op == '+' else NEG(y))
                if r is not None:
                    return r
            if x.op == 'cs' or y.op == 'cs':
                return mk('op', op, x, y)
            return ADD(x, y) if op == '+' else SUB(x, y)
        if op == '*':
            return MUL(x, y)
        if op == '==':
            return EQ(x, y)
        if op == '!=':
            return NOT(EQ(x, y))
        if op == '<':
            return LT(x, y)
        if op == '>':
            return LT(y, x)
        if op == '<=':
            return NOT(LT(y, x))
        if op == '>=':
            return NOT(LT(x, y))
        if op == '&&':
            return AND(x, y)
        if op == '||':
            return OR(x, y)
        if op in ('/', '%') and y.op == 'c' and y.a[0] == 1:
            return x if op == '/' else cint(0)
        if op in ('&', '|', '^') and is_bool_term(x) and is_bool_term(y):
            if op == '&':
                return AND(x, y)
            if op == '|':
                return OR(x, y)
            return NOT(EQ(x, y))
        return mk('op', op, x, y)

    def x_bin(self, e, dest):
        op = e['op']
        if op == ',':
            self.E(e['x'])
            return self.E(e['y'])
        if e.get('asg'):
            if op == '=':
                v = self.rv(e['y'])
                l = self.E(e['x'])
                if self.dead:
                    return (False, UNK)
                self.curline = e.get('l', self.curline)
                p = self.as_place(l)
                self.write(p, v)
                return (True, p)
            l = self.E(e['x'])
            v = self.rv(e['y'])
            if self.dead:
                return (False, UNK)
            p = self.as_place(l)
            nv = self.binop(op[:-1], self.read(p), v, self.ety(e['x']), self.ety(e['y']))
            self.curline = e.get('l', self.curline)
            self.write(p, nv, op)
            return (True, p)
        if op in ('&&', '||'):
            a, b = self.cond(e['x'])
            short, go = (b, a) if op == '&&' else (a, b)
            sv = FALSE if op == '&&' else TRUE
            outs = []
            if go is not None:
                self.st = go
                self.dead = False
                t = self.truth(self.rv(e['y']), self.ety(e['y']))
                if not self.dead:
                    outs.append((self.st, t))
            if short is not None:
                outs.append((short, sv))
            if not outs:
                self.kill_state()
                return (False, UNK)
            self.dead = False
            self.st, v = self.join([o[0] for o in outs], [o[1] for o in outs])
            return (False, v)
        x = self.rv(e['x'])
        y = self.rv(e['y'])
        return (False, self.binop(op, x, y, self.ety(e['x']), self.ety(e['y'])))

    def x_un(self, e, dest):
        op = e['op']
        if op == '!':
            return (False, NOT(self.truth(self.rv(e['x']), self.ety(e['x']))))
        if op == '&':
            r = self.E(e['x'])
            if not r[0] and r[1].op == 'fnref':
                return r
            return (False, ADDR(self.as_place(r)))
        if op == '*':
            return (True, DEREF(self.rv(e['x'])))
        if op == '-':
            return (False, NEG(self.rv(e['x'])))
        if op in ('++', '--'):
            p = self.pl(e['x'])
            old = self.read(p)
            d = cint(1) if op == '++' else cint(-1)
            nv = None
            if self.is_ptrlike(old, self.ety(e['x'])):
                nv = self.ptr_add(old, d)
                if nv is None:
                    nv = mk('op', '+', old, d)
            else:
                nv = ADD(old, d)
            self.write(p, nv, op)
            return (False, old) if e.get('post') else (True, p)
        return (False, mk('op', op, self.rv(e['x'])))

    def x_cond(self, e, dest):
        a, b = self.cond(e['c'])
        outs = []
        for s, x in ((a, e['x']), (b, e['y'])):
            if s is None:
                continue
            self.st = s
            self.dead = False
            r = self.E(x)
            if not self.dead:
                outs.append((self.st, r))
        if not outs:
            self.kill_state()
            return (False, UNK)
        self.dead = False
        if all(r[0] for _, r in outs):
            self.st, v = self.join([o[0] for o in outs], [o[1][1] for o in outs])
            return (True, v)
        vals = []
        for s, r in outs:
            self.st = s
            vals.append(self.val(r))
        self.st, v = self.join([o[0] for o in outs], vals)
        return (False, v)

    def x_cast(self, e, dest):
        ck = e['ck']
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            v = self.rv(e['x'])
            return (False, self.truth(v, self.ety(e['x'])))
        r = self.E(e['x'])
        if ck == 'const_cast':
            self.node('constcast', term=r[1])
            return r
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralCast'):
            if ck == 'FloatingToIntegral':
                return (False, mk('op', 'trunc', self.val(r)))
            return (False, self.val(r))
        if ck == 'NullToPointer':
            return (False, NULL)
        return r

    def x_throw(self, e, dest):
        if e.get('x') is None:
            self.do_throw(None, UNK, None)
            return (False, UNK)
        t = self.ety(e['x'])
        v = self.rv(e['x'])
        if self.dead:
            return (False, UNK)
        self.curline = e.get('l', self.curline)
        self.do_throw(t.strip_ref().short if t is not None else None, v, 'explicit')
        return (False, UNK)

    def x_new(self, e, dest):
        t = self.ety(e)
        h = self.newroot('heap', t.to.s if t and t.to else '')
        if e.get('x') is not None:
            self.into(e['x'], h)
        return (False, mk('addr', h))

    def x_delete(self, e, dest):
        v = self.rv(e['x'])
        self.node('delete', ptr=v)
        return (False, VOID)

    def x_bound(self, e, dest):
        return (False, mk('bound', e['f'], self.E(e['b'])[1]))

    def x_stmtexpr(self, e, dest):
        self.S(e['s'])
        return (False, self.fresh('stmtexpr'))

    def x_unk(self, e, dest):
        return (False, self.fresh('unk'))

    def x_copy(self, e, dest):
        r = self.E(e['x'])
        if r[0] and self.handle_alias and self.is_handle(self.ety(e)):
            return r
        return (False, self.val(r))

    def x_init(self, e, dest):
        t = self.ety(e)
        if 'fs' in e and t is not None and t.k == 'rec':
            fs = e['fs']
            if dest is not None:
                p = dest
            else:
                p = self.newroot('tmp', t.short or '')
            for i, a in enumerate(e['a']):
                if a is None or i >= len(fs) or fs[i] == '<base>':
                    if a is not None:
                        self.into(a, p)
                    continue
                self.init_field(p, t.short, fs[i], a)
            return (True, p)
        vs = []
        for a in e['a']:
            if a is None:
                continue
            vs.append(self.rv(a))
        if t is not None and t.k in ('int', 'float', 'bool', 'ptr', 'enum') and len(vs) == 1:
            return (False, vs[0])
        return (False, mk('list', *vs))

    def init_field(self, p, cls, name, x):
        fp = FLD(p, name)
        if x is None:
            return
        if (cls, name) in self.P.reffields:
            r = self.E(x)
            if self.dead:
                return
            self.setval(fp, ADDR(self.as_place(r)), note=True)
            return
        r = self.E(x, dest=fp)
        if self.dead:
            return
        if r[0] and r[1] is fp:
            return
        if r[0] and self.is_handle(self.ety(x)):
            v = ADDR(r[1])
        else:
            v = self.val(r)
        self.node('write', place=fp, value=v, how='init')
        self.setval(fp, v)

    def into(self, e, p):
        """initialise place p from expression e"""
        r = self.E(e, dest=p)
        if self.dead:
            return
        if r[0] and r[1] is p:
            return
        self.setval(p, self.val(r))

    def x_lambda(self, e, dest):
        self.uid += 1
        fr = self.frames[-1]
        cap = {}
        this = None
        capvals = []
        for c in e['caps']:
            if c.get('this'):
                this = fr.this
                capvals.append(('this', this if this is not None else UNK))
            elif 'd' in c:
                if c['byref']:
                    p = fr.vars.get(c['d'])
                    if p is None:
                        p = mk('root', 'unkvar', c['n'], fr.uid)
                    cap[c['d']] = p
                    capvals.append((c['n'], p))
                else:
                    r = self.E(c['init']) if c.get('init') else (True, fr.vars.get(c['d']))
                    if r[0] and r[1] is not None and self.is_handle(self.ety(c['init']) if c.get('init') else None):
                        cap[c['d']] = r[1]
                    else:
                        p = self.newroot('cap', c['n'])
                        v = self.val(r) if r[1] is not None else UNK
                        self.setval(p, v)
                        cap[c['d']] = p
                    capvals.append((c['n'], cap[c['d']]))
        key = mk('clos', e['f'], *capvals)
        self.clos[key] = (e['f'], cap, this, fr.tag)
        self.clos_vars[key] = fr.vars
        return (False, key)

    # ------------------------------------------------------------------ constructors
    def x_ctor(self, e, dest):
        d = self.P.decls.get(e['f'])
        t = self.ety(e)
        fn = self.P.fns.get(e['f'])
        if d is None:
            return (False, self.fresh('ctor'))
        if fn is not None and d.repo and d.qn not in self.opaque:
            p = dest if dest is not None else self.newroot('tmp', t.short if t else '')
            args = [self.E(a) for a in e['a']]
            if self.dead:
                return (False, UNK)
            self.curline = e.get('l', self.curline)
            if self.can_inline(fn):
                self.inline(fn, p, args, e, is_ctor=True)
                return (True, p)
            if d.qn in self.throwing:
                self.maybe_throw(d.qn)
            self.setval(p, mk('call', d.qn, *[self.val(a) for a in args]))
            return (True, p)
        return self.ext_ctor(d, e, t, dest)

    def ext_ctor(self, d, e, t, dest):
        short = (t.short if t is not None else d.cls) or d.cls or ''
        args = [self.E(a) for a in e['a']]
        if self.dead:
            return (False, UNK)
        self.curline = e.get('l', self.curline)
        if d.repo and not d.params and short.startswith('cpb::'):
            # defaulted default constructor: run the member initialisers if we know them
            return (False, mk('default', short))
        if short in LOCKS and args:
            m = self.as_place(args[0])
            deferred = any('defer' in str(a[1]) for a in args[1:])
            if not deferred:
                self.node('lock', mutex=m)
            return (False, mk('lockobj', m))
        if short == 'std::thread':
            if args:
                self.node('spawn', fn=self.val(args[0]))
                return (False, mk('thread', self.val(args[0])))
            return (False, mk('default', short))
        if short.startswith('std::shared_ptr') or short.startswith('std::unique_ptr') or short.startswith('std::function') \
                or short.startswith('std::__shared_ptr'):
            if not args:
                return (False, NULL)
            a = args[0]
            if a[0] and short.startswith('std::function') and self.is_lambda_t(self.ety(e['a'][0])):
                return (False, self.val(a))
            return (False, self.val(a))
        if any(short.startswith(x) for x in ITER_PREFIX):
            if args:
                return (False, self.val(args[0]))
            return (False, mk('default', short))
        if short == 'mapbox::util::variant':
            if not args:
                return (False, mk('default', short))
            at = self.ety(e['a'][0]).strip_ref()
            alt = self.alt_type(t, at)
            if alt is None:
                return (False, self.val(args[0]))
            return (False, mk('var', alt, self.val(args[0])))
        if self.is_handle(t) and args:
            a = args[0]
            if len(args) == 1:
                return a if a[0] else a
            v = self.val(a)
            if v.op == 'addr' and v.a[0].op == 'elem':
                el = v.a[0]
                if el.a[1].op == 'c' and el.a[1].a[0] == 0:
                    return (True, mk('sub', el.a[0], 'head', *[self.val(x) for x in args[1:]]))
                return (True, mk('sub', el.a[0], 'segment', el.a[1], *[self.val(x) for x in args[1:]]))
            return (True, mk('sub', DEREF(v), 'map', *[self.val(x) for x in args[1:]]))
        if short.startswith('Eigen::') and len(args) == 1:
            at = self.ety(e['a'][0])
            at = at.strip_ref() if at is not None else None
            if at is not None and at.k == 'rec' and (at.short or '').startswith('Eigen::'):
                return (False, self.val(args[0]))
            if at is not None and at.k == 'rec' and 'initializer_list' in (at.short or ''):
                return (False, self.val(args[0]))
        if short in ('std::pair',) and len(args) == 2:
            return (False, mk('obj', mk('call', 'std::pair'), ('first', self.val(args[0])), ('second', self.val(args[1]))))
        if short == 'std::tuple' and args and len(args) == len(d.params) and len(args) > 1:
            return (False, mk('obj', mk('call', 'std::tuple'), *[('%d' % i, self.val(a)) for i, a in enumerate(args)]))
        if short.endswith('basic_string') and args:
            return (False, self.val(args[0]))
        if short in CONTAINERS:
            if not args or (len(args) == 1 and 'allocator' in str(self.ety(e['a'][0]).s)):
                return (False, mk('list'))
            if len(args) >= 1:
                v = self.val(args[0])
                at = self.ety(e['a'][0])
                at = at.strip_ref() if at is not None else None
                if v.op == 'list':
                    return (False, v)
                if len(args) >= 2 and v.op == 'iter':
                    w = self.val(args[1])
                    if v.a[1] is cint(0) and w.op == 'iter' and w.a[0] is v.a[0] and w.a[1].op == 'endpos':
                        return (False, self.read(v.a[0]))
                if at is not None and at.k == 'rec' and at.short in CONTAINERS:
                    return (False, v)
                return (False, mk('call', short + '::ctor', *[self.val(a) for a in args]))
        if not args:
            return (False, mk('default', short))
        self.escape_args(d, args)
        return (False, mk('call', short + '::ctor', *[self.val(a) for a in args]))

    def is_lambda_t(self, t):
        return t is not None and 'lambda' in (t.s or '')

    # ------------------------------------------------------------------ variants
    def alt_type(self, vt, at):
        """which alternative of variant type vt a value of type at selects (type spelling)"""
        alts = [a for a in (vt.targs or []) if a is not None and not isinstance(a, str)]
        for a in alts:
            if a.s.replace('const ', '') == at.s.replace('const ', ''):
                return a.s
        if at.short == 'mapbox::util::variant':
            return None
        for a in alts:
            if a.short == at.short and a.short is not None and len([b for b in alts if b.short == a.short]) == 1:
                return a.s
        return alts[0].s if len(alts) == 1 else None

    def alt_of(self, v, ts):
        if v.op == 'var':
            if v.a[0] == ts:
                return v.a[1]
            return mk('alt', v, ts)
        if v.op == 'sel':
            if not self.may_alt(v.a[1], ts):
                return self.alt_of(v.a[2], ts)
            if not self.may_alt(v.a[2], ts):
                return self.alt_of(v.a[1], ts)
            return SEL(v.a[0], self.alt_of(v.a[1], ts), self.alt_of(v.a[2], ts))
        if v.op == 'phi':
            vs = [x for x in v.a if not (x.op == 'var' and x.a[0] != ts)]
            return PHI([self.alt_of(x, ts) for x in vs]) if vs else mk('alt', v, ts)
        return mk('alt', v, ts)

    def may_alt(self, v, ts):
        if v.op == 'var':
            return v.a[0] == ts
        if v.op == 'sel':
            return self.may_alt(v.a[1], ts) or self.may_alt(v.a[2], ts)
        if v.op == 'phi':
            return any(self.may_alt(x, ts) for x in v.a)
        return True

    def is_alt(self, v, ts):
        if v.op == 'var':
            return TRUE if v.a[0] == ts else FALSE
        if v.op == 'sel':
            return SEL(v.a[0], self.is_alt(v.a[1], ts), self.is_alt(v.a[2], ts))
        return mk('altis', v, ts)

    def possible_alts(self, v, alts):
        """subset of alternative spellings the variant value may hold"""
        if v.op == 'var':
            return [v.a[0]]
        if v.op == 'sel':
            r = set(self.possible_alts(v.a[1], alts)) | set(self.possible_alts(v.a[2], alts))
            return [a for a in alts if a in r]
        if v.op == 'phi':
            r = set()
            for x in v.a:
                r |= set(self.possible_alts(x, alts))
            return [a for a in alts if a in r]
        return alts

    def visit(self, r, vt, call_alt, split=False):
        """dispatch over the alternatives of variant r; call_alt(alt Type, alt R) -> list of (state, R)"""
        v = self.val(r)
        alts = [a for a in (vt.targs or []) if a is not None and not isinstance(a, str)]
        byname = {}
        for a in alts:
            byname.setdefault(a.s, a)
        names = list(byname)
        poss = self.possible_alts(v, names)
        poss = [p for p in poss if p in byname] or names
        outs = []
        rest = self.st
        for i, n in enumerate(poss):
            if i < len(poss) - 1:
                self.st = rest
                a, b = self.branch(self.is_alt(v, n))
                rest = b
                if a is None:
                    continue
                self.st = a
            else:
                if rest is None:
                    break
                self.st = rest
            self.dead = False
            if r[0]:
                # a place: refer to the alternative inside it
                ar = (True, mk('alt', r[1], n))
                if self.read(r[1]).op == 'var':
                    pass
            else:
                ar = (False, self.alt_of(v, n))
            outs.extend(call_alt(byname[n], ar))
            if rest is None:
                break
        return outs

    # ------------------------------------------------------------------ calls
    def can_inline(self, fn):
        if fn.b is None:
            return False
        if len(self.idstack) >= self.max_depth:
            return False
        if self.idstack.count(fn.id) >= 1:
            return False
        if self.inline_pred is not None and not self.inline_pred(fn):
            return False
        return True

    def x_call(self, e, dest):
        outs = self.call(e, split=False, dest=dest)
        if not outs:
            self.kill_state()
            return (False, UNK)
        if len(outs) == 1:
            self.st = outs[0][0]
            self.dead = False
            return outs[0][1]
        return self.merge_outs(outs)

    def merge_outs(self, outs):
        self.dead = False
        if all(r[0] for _, r in outs):
            self.st, v = self.join([o[0] for o in outs], [o[1][1] for o in outs])
            return (True, v)
        vals = []
        for s, r in outs:
            self.st = s
            vals.append(self.val(r))
        self.st, v = self.join([o[0] for o in outs], vals)
        return (False, v)

    def one(self, r):
        return [(self.st, r)] if not self.dead else []

    def call(self, e, split=False, dest=None):
        """-> list of (state, R)"""
        ck = e['ck']
        line = e.get('l', self.curline)
        if ck == 'indirect':
            callee = self.rv(e['callee'])
            args = [self.E(a) for a in e['a']]
            if self.dead:
                return []
            self.curline = line
            if callee in self.clos:
                return self.call_clos(callee, args, e, split)
            if callee.op == 'fnref' and self.P.fns.get(callee.a[0]) and self.can_inline(self.P.fns[callee.a[0]]):
                return self.inline(self.P.fns[callee.a[0]], None, args, e, split=split)
            if callee.op == 'fnref' and callee.a[0] in self.P.decls:
                d = self.P.decls[callee.a[0]]
                return self.one((False, mk('call', d.qn, *[self.val(a) for a in args])))
            return self.usercall(callee, args, [self.ety(a) for a in e['a']])
        d = self.P.decls.get(e['f'])
        if d is None:
            return self.one((False, self.fresh('call')))
        obj = None
        if ck == 'method':
            obj = self.E(e['o'])
            if self.dead:
                return []
            if e.get('arrow'):
                obj = (True, DEREF(self.val(obj)))
        fn = self.P.fns.get(e['f'])
        # closures: operator() of a lambda
        if ck == 'method' and d.op == '()' and fn is not None and obj is not None:
            ov = self.val(obj)
            if ov in self.clos and self.clos[ov][0] == e['f']:
                args = [self.E(a) for a in e['a']]
                if self.dead:
                    return []
                self.curline = line
                return self.call_clos(ov, args, e, split)
            if 'lambda' in (d.clsid or '') or ':R' in (d.clsid or ''):
                if ov.op in ('sel', 'phi'):
                    pass
        if d.repo and d.qn in self.pure:
            args = [self.E(a) for a in e['a']]
            if self.dead:
                return []
            self.curline = line
            vs = ([self.val(obj)] if obj is not None else []) + [self.val(a) for a in args]
            self.node('call', fn=d.qn, decl=d, args=tuple(vs), obj=obj[1] if obj else None, pure=True)
            return self.one((False, mk('call', d.qn, *vs)))
        if d.repo:
            return self.repo_call(d, fn, e, obj, split, dest)
        return self.ext_call(d, e, obj, split, dest)

    def repo_call(self, d, fn, e, obj, split, dest):
        args = [self.E(a) for a in e['a']]
        if self.dead:
            return []
        self.curline = e.get('l', self.curline)
        if d.qn in self.opaque:
            return self.opaque_call(d, e, obj, args)
        if d.virtual and not e.get('qual'):
            return self.virtual_call(d, e, obj, args, split)
        if fn is None and (d.copyassign or d.moveassign) and obj is not None and args:
            self.write(obj[1], self.val(args[0]))
            return self.one(obj)
        if fn is not None and (d.copyassign or d.moveassign) and d.implicit and obj is not None and args:
            self.write(obj[1], self.val(args[0]))
            return self.one(obj)
        if fn is None or not self.can_inline(fn):
            return self.opaque_call(d, e, obj, args)
        return self.inline(fn, obj[1] if obj is not None and obj[0] else
                           (self.as_place(obj) if obj is not None else None), args, e, split=split)

    def virtual_call(self, d, e, obj, args, split):
        ids = [d.id] + self.P.all_overriders(d.id)
        fns = [self.P.fns[i] for i in ids if i in self.P.fns and not self.P.decls[i].pure]
        fns = [f for f in fns if self.can_inline(f)]
        this = self.as_place(obj)
        dyn = None
        if this.op == 'root' and this.a[0] in ('heap', 'tmp', 'loc'):
            nm = strip_targs(str(this.a[2]))
            m = [f for f in fns if f.decl is not None and f.decl.cls == nm]
            if m:
                fns = m
        self.node('vcall', fn=d.qn, obj=this, args=tuple(self.val(a) for a in args), n=len(fns))
        if not fns:
            return self.opaque_call(d, e, obj, args)
        outs = []
        rest = self.st
        for i, f in enumerate(fns):
            if i < len(fns) - 1:
                self.st = rest
                a, rest = self.branch(mk('dynis', self.read(this) if False else this, f.decl.cls, f.id))
                if a is None:
                    continue
                self.st = a
            else:
                if rest is None:
                    break
                self.st = rest
            self.dead = False
            outs.extend(self.inline(f, this, args, e, split=split))
            if rest is None:
                break
        return outs

    def opaque_call(self, d, e, obj, args):
        self.G.skipped[d.qn] = self.G.skipped.get(d.qn, 0) + 1
        objp = obj[1] if obj is not None else None
        vs = [self.val(a) for a in args]
        ov = self.val(obj) if obj is not None else None
        self.node('call', fn=d.qn, decl=d, obj=objp, args=tuple(vs), argplaces=tuple(a[1] if a[0] else None for a in args),
                  objval=ov)
        if d.qn in self.throwing:
            self.maybe_throw(d.qn)
        if obj is not None and not d.const and not d.ctor and obj[0]:
            self.mut(objp, d.n, vs)
        self.escape_args(d, args)
        r = mk('call', d.qn, *(([ov] if ov is not None else []) + vs))
        if d.ret is not None and d.ret.k == 'lref':
            return self.one((True, mk('deref', mk('call', d.qn, *(([ov] if ov is not None else []) + vs)))))
        return self.one((False, r))

    def escape_args(self, d, args):
        """arguments bound to non-const references are modified by an unknown callee"""
        for i, a in enumerate(args):
            pt = d.params[i] if i < len(d.params) else None
            if pt is None or not a[0]:
                continue
            if pt.k == 'lref' and pt.to is not None and not pt.to.const:
                self.mut(a[1], 'arg:' + d.qn, ())

    def usercall(self, callee, args, types, ptypes=None):
        vs = [self.val(a) for a in args]
        n = self.node('usercall', callee=callee, args=tuple(vs), argplaces=tuple(a[1] if a[0] else None for a in args))
        for i, a in enumerate(args):
            t = (ptypes[i] if ptypes and i < len(ptypes) else None) or (types[i] if i < len(types) else None)
            s = (t.s if t is not None else '')
            if t is not None and t.k == 'lref' and t.to is not None and not t.to.const and a[0]:
                self.mut(a[1], 'usercall', ())
            elif t is None or 'onst' not in s:
                # by-value handle to mutable storage
                for x in subterms(vs[i]):
                    if x.op == 'addr' and x.a[0].op in PLACE_OPS:
                        q = x.a[0]
                        if q.op in ('elem', 'sub'):
                            q = q.a[0]
                        self.mut(q, 'usercall', ())
                if a[0] and self.is_handle(t):
                    self.mut(a[1], 'usercall', ())
        if self.usercall_throws:
            self.maybe_throw('<user>')
        self.uid += 1
        return self.one((False, mk('call', '<user>', callee, *vs)))

    def call_clos(self, clos, args, e, split=False):
        fid, cap, this, tag = self.clos[clos]
        fn = self.P.fns.get(fid)
        if fn is None or not self.can_inline(fn):
            self.node('usercall', callee=clos, args=tuple(self.val(a) for a in args), argplaces=())
            return self.one((False, self.fresh('clos')))
        return self.inline(fn, this, args, e, split=split, cap=cap)

    def invoke(self, r, args, split=False, e=None):
        """call a callable value R with argument Rs"""
        v = self.val(r)
        if v in self.clos:
            return self.call_clos(v, args, e or {}, split)
        if v.op == 'fnref' and v.a[0] in self.P.fns and self.can_inline(self.P.fns[v.a[0]]):
            return self.inline(self.P.fns[v.a[0]], None, args, e or {}, split=split)
        if v.op == 'fnref':
            d = self.P.decls.get(v.a[0])
            return self.one((False, mk('call', d.qn if d else '?', *[self.val(a) for a in args])))
        if v.op == 'obj' or r[0] or v.op in ('default', 'call'):
            # functor object of a repository class
            return None
        return self.usercall(v, args, [None] * len(args))

    # -- inlining
    def inline(self, fn, this, args, e, split=False, cap=None, is_ctor=False, keep_env=False):
        fr = Frame()
        self.uid += 1
        fr.fn = fn
        fr.tag = fn.tag
        fr.this = this
        fr.vars = dict(cap) if cap else {}
        fr.uid = self.uid
        fr.returns = []
        fr.scope_base = len(self.scopes)
        fr.file = fn.file
        fr.parent = None
        d = fn.decl
        caller_line = self.curline
        ret = d.ret if d is not None else None
        fr.retref = ret is not None and ret.k in ('lref', 'rref')
        fr.alias_rets = ret is not None and self.is_handle(ret)
        argterms = tuple(self.val(a) for a in args) if not self.dry else ()
        argplaces = tuple(a[1] if a[0] else None for a in args)
        # bind parameters (in callee frame, values already evaluated)
        localroots = []
        for i, p in enumerate(fn.p):
            pt = self.P.types.get((fn.tag, p['t']))
            a = args[i] if i < len(args) else (False, self.fresh('arg'))
            if pt is not None and (pt.k in ('lref', 'rref') or (self.is_handle(pt) and a[0])):
                fr.vars[p['d']] = self.as_place(a)
            else:
                root = mk('root', 'loc', fr.uid, p['n'])
                self.setval(root, self.val(a), note=False)
                fr.vars[p['d']] = root
                localroots.append(root)
        self.frames.append(fr)
        self.stack.append((fn.qn, caller_line))
        self.idstack.append(fn.id)
        oldloops = self.loops
        self.loops = []
        if not self.dry:
            self.G.inlined[fn.id] = self.G.inlined.get(fn.id, 0) + 1
        self.curline = fn.line
        self.node('enter', fn=fn.qn, fid=fn.id, args=argterms, argplaces=argplaces, this=this, call_line=caller_line,
                  decl=d)
        if is_ctor and fn.inits is not None:
            self.run_inits(fn, fr, this)
        if not self.dead:
            self.scopes.append([])
            self.S(fn.b)
            self.pop_scope()
        if not self.dead:
            fr.returns.append((self.st, (False, VOID)))
        outs = fr.returns
        self.loops = oldloops
        res = []
        if not outs:
            self.frames.pop(); self.stack.pop(); self.idstack.pop()
            self.kill_state()
            self.curline = caller_line
            return []
        if not split or len(outs) > 24:
            # merge now
            if len(outs) == 1:
                self.st = outs[0][0]
                self.dead = False
                r = outs[0][1]
            else:
                r = self.merge_outs(outs)
            self.curline = fn.line
            self.node('leave', fn=fn.qn, fid=fn.id, ret=r[1], retplace=r[0])
            res = [(self.st, r)]
        else:
            for s, r in outs:
                self.st = s
                self.dead = False
                self.node('leave', fn=fn.qn, fid=fn.id, ret=r[1], retplace=r[0])
                res.append((self.st, r))
        self.frames.pop(); self.stack.pop(); self.idstack.pop()
        self.curline = caller_line
        # forget storage of the dead frame that nothing surviving refers to
        self.frame_roots.pop(fr.uid, None)
        for s, r in res:
            if len(s.env) > self.gc_at:
                self.collect(s, fr.uid, r[1])
                self.gc_at = max(60, len(s.env) * 5 // 4)
        self.st = res[-1][0] if res else self.st
        self.dead = False
        return res

    frame_roots = None
    gc_at = 60
    keep_locals = False

    def collect(self, s, uid, result):
        """drop entries of temporaries/locals created since uid that are unreachable from the rest of the state"""
        env = s.env
        cand = {}
        for k in env:
            r = root_of(k)
            if r.op == 'root' and r.a[0] in ('loc', 'tmp', 'cap', 'heap', 'exc') and r.a[1] >= uid:
                cand.setdefault(r, []).append(k)
        if not cand:
            return
        live = set(x for x in local_roots(result) if x in cand)
        todo = list(live)
        for k, v in env.items():
            if root_of(k) not in cand:
                for x in local_roots(v):
                    if x in cand and x not in live:
                        live.add(x)
                        todo.append(x)
        while todo:
            r = todo.pop()
            for k in cand[r]:
                for x in local_roots(env[k]):
                    if x in cand and x not in live:
                        live.add(x)
                        todo.append(x)
        for r, ks in cand.items():
            if r not in live:
                for k in ks:
                    del env[k]

    def _live_vars(self):
        """term mentioning every storage root the active frames can still name"""
        acc = []
        for f in self.frames:
            acc.extend(x for x in f.vars.values() if isinstance(x, T))
            if f.this is not None:
                acc.append(f.this)
        for sc in self.scopes:
            for c in sc:
                acc.append(c[1])
        return mk('live', *acc)

    def _purge(self, root):
        # locals may still be referenced through pointers stored elsewhere; keep if any value mentions addr(root)
        self.st.env.pop(root, None)
        self._drop_sub(root)

    def run_inits(self, fn, fr, this):
        cls = fn.decl.cls if fn.decl is not None else ''
        for i in fn.inits:
            if i.get('field'):
                x = i['x']
                if x is None:
                    continue
                self.init_field(this, cls, i['field'], x)
            elif i.get('deleg') or i.get('base') is not None:
                if i['x'] is not None:
                    self.into(i['x'], this)
            if self.dead:
                return

    # ------------------------------------------------------------------ exceptions
    def exc_is_a(self, t, h):
        if t is None:
            return None
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == h:
                return True
            if x in STD_EXC_BASES:
                todo.append(STD_EXC_BASES[x])
            todo.extend(self.P.base_names.get(x, []))
        return False

    def do_throw(self, tname, v, how):
        """control leaves the current point with an exception"""
        self.node('throw', type=tname, value=v, how=how)
        self._route_throw(tname)
        self.kill_state()

    def maybe_throw(self, why):
        """add an exceptional edge and continue"""
        if self.dry and not self.tries:
            return
        n = self.node('maythrow', why=why)
        s = self.st
        ex = s.fork()
        if n is not None:
            ex.front = [(n, 'throw')]
        self.st = ex
        self._route_throw(None)
        self.st = s
        self.dead = False

    def _route_throw(self, tname):
        depth = len(self.scopes)
        s = self.st
        for ti in range(len(self.tries) - 1, -1, -1):
            T_ = self.tries[ti]
            for h in T_['handlers']:
                if h.get('all'):
                    m = True
                else:
                    m = True if tname is None else self.exc_is_a(tname, h['tn'])
                if m:
                    c = s.fork()
                    save = self.st
                    self.st = c
                    self.cleanup(T_['scope_base'])
                    h['states'].append(self.st)
                    self.st = save
                    if tname is not None or h.get('all'):
                        return
            # unknown exceptions may also propagate further
        c = s.fork()
        self.st = c
        self.cleanup(0)
        n = self.node('exitthrow', type=tname)
        if n is not None:
            self.G.throws.append(n)

    def cleanup(self, base):
        """run destructors of scopes above base (without popping)"""
        for sc in reversed(self.scopes[base:]):
            for c in reversed(sc):
                self.run_cleanup(c)

    def run_cleanup(self, c):
        kind, place, extra = c
        if kind == 'lock':
            v = self.read(place)
            self.node('unlock', mutex=extra, implicit=True)
        elif kind == 'dtor':
            fn = self.P.fns.get(extra)
            if fn is not None and self.can_inline(fn):
                self.inline(fn, place, [], {})

    def pop_scope(self):
        sc = self.scopes.pop()
        if not self.dead:
            for c in reversed(sc):
                self.run_cleanup(c)

    # ------------------------------------------------------------------ statements
    def S(self, s):
        if s is None or self.dead:
            return
        self.curline = s.get('l', self.curline)
        getattr(self, 's_' + s['s'])(s)

    def s_block(self, s):
        self.scopes.append([])
        for x in s['b']:
            if self.dead:
                break
            self.S(x)
        self.pop_scope()

    def s_null(self, s):
        pass

    def s_unk(self, s):
        self.node('unkstmt', w=s.get('w'))

    def s_goto(self, s):
        raise Incomplete('goto')

    def s_expr(self, s):
        self.E(s['x'])

    def s_decl(self, s):
        for v in s['v']:
            if self.dead:
                return
            self.declare(v)

    def declare(self, v):
        fr = self.frames[-1]
        t = self.P.types.get((fr.tag, v['t']))
        self.curline = v.get('l', self.curline)
        if v.get('static'):
            p = mk('root', 'glob', v['n'] + '@static')
            return
        if t is not None and t.k in ('lref', 'rref'):
            r = self.E(v['i']) if v.get('i') else (False, UNK)
            if self.dead:
                return
            if r[0]:
                fr.vars[v['d']] = r[1]
            else:
                p = mk('root', 'loc', fr.uid, v['n'])
                self.setval(p, r[1])
                fr.vars[v['d']] = p
            return
        p = mk('root', 'loc', fr.uid, v['n'], v['d'])
        self.frame_roots.setdefault(fr.uid, []).append(p)
        if self.st.env and (p in self.st.env or self._has_sub(p)):
            self._purge(p)
        if v.get('i') is not None:
            i = v['i']
            r = self.E(i, dest=p if t is not None and t.k == 'rec' else None)
            if self.dead:
                return
            if r[0] and r[1] is p:
                pass
            elif r[0] and self.is_handle(t):
                fr.vars[v['d']] = r[1]
                return
            else:
                val = self.val(r)
                self.node('init', place=p, value=val)
                self.setval(p, val)
        else:
            if t is not None and t.k == 'rec':
                self.setval(p, mk('default', t.short))
            else:
                self.setval(p, mk('uninit', v['n']))
        fr.vars[v['d']] = p
        if t is not None and t.k == 'rec':
            if t.short in LOCKS:
                lv = self.read(p)
                m = lv.a[0] if lv.op == 'lockobj' else UNK
                self.scopes[-1].append(('lock', p, m))
            elif t.rid is not None:
                R = self.P.recs.get(t.rid)
                if R is not None and R.repo and R.dtor in self.P.fns:
                    D = self.P.decls.get(R.dtor)
                    if D is not None and not D.implicit:
                        self.scopes[-1].append(('dtor', p, R.dtor))

    def s_if(self, s):
        self.scopes.append([])
        if s.get('init'):
            self.S(s['init'])
        if s.get('cv'):
            self.declare(s['cv'])
        if self.dead:
            self.scopes.pop()
            return
        a, b = self.cond(s['c'])
        outs = []
        if a is not None:
            self.st, self.dead = a, False
            self.S(s['x'])
            if not self.dead:
                outs.append(self.st)
        if b is not None:
            self.st, self.dead = b, False
            if s.get('y'):
                self.S(s['y'])
            if not self.dead:
                outs.append(self.st)
        self.resume(outs)
        self.pop_scope()

    def s_return(self, s):
        fr = self.frames[-1]
        r = (False, VOID)
        if s.get('x') is not None:
            r = self.E(s['x'])
            if self.dead:
                return
            if fr.retref or (fr.alias_rets and r[0]):
                r = (True, self.as_place(r))
            else:
                r = (False, self.val(r))
        self.curline = s.get('l', self.curline)
        self.cleanup(fr.scope_base)
        fr.returns.append((self.st, r))
        self.kill_state()

    def s_break(self, s):
        L = self.loops[-1]
        self.cleanup(L.scope_base)
        L.breaks.append(self.st)
        self.kill_state()

    def s_continue(self, s):
        i = len(self.loops) - 1
        while self.loops[i].continues is None:
            i -= 1
        L = self.loops[i]
        self.cleanup(L.scope_base)
        L.continues.append(self.st)
        self.kill_state()

    def s_switch(self, s):
        v = self.rv(s['c'])
        if self.dead:
            return
        body = s['b']['b'] if s['b'] and s['b']['s'] == 'block' else [s['b']]
        # flatten labels
        items = []

        def flat(x):
            while x is not None and x['s'] in ('case', 'default'):
                items.append(('label', x))
                x = x['b']
            items.append(('stmt', x))
        for x in body:
            flat(x)
        L = Loop()
        L.breaks = []
        L.continues = None
        L.scope_base = len(self.scopes)
        self.loops.append(L)
        self.scopes.append([])
        entry = self.st
        # dispatch chain
        targets = {}
        rest = entry
        default = None
        for kind, x in items:
            if kind == 'label':
                if x['s'] == 'default':
                    default = id(x)
                elif rest is not None:
                    self.st, self.dead = rest, False
                    c = self.rv(x['c'])
                    a, rest = self.branch(EQ(v, c))
                    if a is not None:
                        targets[id(x)] = a
        if default is not None and rest is not None:
            targets[default] = rest
            rest = None
        self.kill_state()
        for kind, x in items:
            if kind == 'label':
                t = targets.get(id(x))
                if t is not None:
                    self.resume(([self.st] if not self.dead else []) + [t])
            else:
                self.S(x)
        outs = L.breaks + ([self.st] if not self.dead else []) + ([rest] if rest is not None else [])
        self.loops.pop()
        self.scopes.pop()
        self.resume(outs)

    # -- loops
    def loop(self, cond, body, inc=None, do=False):
        """cond() -> (T,F) states ; body(), inc() act on self.st"""
        if self.dead:
            return
        # 1. dry run to find the places written by one iteration
        saved = (self.st.fork(), self.written, self.uid)
        entry = self.st
        self.dry += 1
        W = set()
        self.written = W
        nret = [len(f.returns) for f in self.frames]
        tr = [[len(h['states']) for h in t['handlers']] for t in self.tries]
        if len(entry.env) > 400:
            self.collect(entry, self.frames[-1].uid if self.frames else 0, self._live_vars())
        self.st = entry.fork()
        self._iteration(cond, body, inc, do)
        self.dry -= 1
        self.written = saved[1]
        for f, n in zip(self.frames, nret):
            del f.returns[n:]
        for t, ns in zip(self.tries, tr):
            for h, n in zip(t['handlers'], ns):
                del h['states'][n:]
        self.st = entry
        self.dead = False
        if self.written is not None:
            self.written |= W
        # 2. widen
        self.uid += 1
        lid = self.uid
        head = self.node('loop', lid=lid)
        live = {}
        for p in W:
            r = root_of(p)
            live[p] = r
        done = set()
        mine = []
        uid0 = saved[2]
        for p in sorted(W, key=lambda t: t.id):
            r = live[p]
            if r.op == 'root' and r.a[0] in ('tmp', 'heap', 'cap', 'exc', 'loc') and r.a[1] > uid0:
                continue      # created inside the body
            if r.op == 'root' and r.a[0] == 'loc' and r not in self.st.env and not self._has_sub(r):
                continue      # declared inside the body
            # element writes widen the whole container
            q = p
            for x in prefixes(p):
                if x.op in ('elem', 'sub'):
                    q = x.a[0]
            if q in done:
                continue
            done.add(q)
            old = self.st.env.get(q)
            new = mk('lv', lid, q)
            if old is not None:
                if old.op == 'iter':
                    new = mk('iter', old.a[0], mk('lv', lid, q))
                elif old.op == 'addr' and old.a[0].op == 'elem':
                    new = mk('addr', mk('elem', old.a[0].a[0], mk('lv', lid, q)))
                elif old.op == 'lockobj':
                    continue
            if not self.dry:
                self.lvinfo[mk('lv', lid, q)] = [self.read(q)]
                mine.append(q)
            self.setval(q, new, note=False)
        base_path = self.st.path
        marker = ((None, lid),)
        self.st.path = base_path + marker
        self.loops_open.append(lid)
        L = self._iteration(cond, body, inc, do)
        self.loops_open.pop()
        # 3. back edge
        if not self.dead and head is not None:
            for p, lab in self.st.front:
                p.succ.append((head, lab))
                head.pred.append((p, lab))
            for q in mine:
                self.lvinfo[mk('lv', lid, q)].append(self.read(q))
        outs = []
        for i, s in enumerate(L.exits):
            s.path = base_path + ((None, (lid, i)),) if len(L.exits) > 1 else base_path
            outs.append(s)
        self.dead = False
        if not outs:
            self.kill_state()
        else:
            self.st = self.join(outs)[0]
            self.st.path = base_path

    def _iteration(self, cond, body, inc, do):
        class X:
            pass
        res = X()
        res.exits = []
        L = Loop()
        L.breaks = []
        L.continues = []
        L.scope_base = len(self.scopes)
        self.loops.append(L)
        if not do:
            a, b = cond()
            if b is not None:
                res.exits.append(b)
            if a is None:
                self.kill_state()
            else:
                self.st, self.dead = a, False
                body()
            outs = ([self.st] if not self.dead else []) + L.continues
            self.resume(outs)
            if not self.dead and inc is not None:
                inc()
        else:
            body()
            outs = ([self.st] if not self.dead else []) + L.continues
            self.resume(outs)
            if not self.dead:
                a, b = cond()
                if b is not None:
                    res.exits.append(b)
                if a is None:
                    self.kill_state()
                else:
                    self.st, self.dead = a, False
        res.exits.extend(L.breaks)
        self.loops.pop()
        return res

    def s_while(self, s):
        def c():
            if s.get('cv'):
                self.declare(s['cv'])
            return self.cond(s['c'])
        self.scopes.append([])
        self.loop(c, lambda: self.S(s['b']))
        self.pop_scope()

    def s_do(self, s):
        self.loop(lambda: self.cond(s['c']), lambda: self.S(s['b']), do=True)

    def s_for(self, s):
        self.scopes.append([])
        self.S(s.get('init'))

        def c():
            if s.get('c') is None:
                return self.st, None
            self.curline = s['c'].get('l', self.curline)
            return self.cond(s['c'])

        def i():
            if s.get('inc') is not None:
                self.E(s['inc'])
        self.loop(c, lambda: self.S(s['b']), i)
        self.pop_scope()

    def s_rangefor(self, s):
        fr = self.frames[-1]
        self.scopes.append([])
        r = self.E(s['r'])
        if self.dead:
            self.scopes.pop()
            return
        p = self.as_place(r)
        fr.vars[s['rv']] = p
        bp = mk('root', 'loc', fr.uid, '__begin', s['bv'])
        ep = mk('root', 'loc', fr.uid, '__end', s['ev'])
        fr.vars[s['bv']] = bp
        fr.vars[s['ev']] = ep
        self.frame_roots.setdefault(fr.uid, []).extend([bp, ep])
        for q, x in ((bp, s['begin']), (ep, s['end'])):
            rr = self.E(x, dest=q)
            if self.dead:
                self.scopes.pop()
                return
            if not (rr[0] and rr[1] is q):
                self.setval(q, self.val(rr))

        def body():
            self.scopes.append([])
            self.declare(s['v'])
            self.S(s['b'])
            self.pop_scope()
        self.loop(lambda: self.cond(s['cond']), body, lambda: self.E(s['inc']))
        self.pop_scope()

    def s_try(self, s):
        fr = self.frames[-1]
        T_ = {'handlers': [], 'scope_base': len(self.scopes)}
        for h in s['h']:
            hh = {'states': [], 'b': h['b'], 'd': h.get('d')}
            if h.get('all'):
                hh['all'] = True
            else:
                t = self.P.types.get((fr.tag, h['t']))
                hh['tn'] = t.strip_ref().short
            T_['handlers'].append(hh)
        self.tries.append(T_)
        uid0 = self.uid
        self.S(s['b'])
        self.tries.pop()
        outs = [self.st] if not self.dead else []
        for h in T_['handlers']:
            if not h['states']:
                continue
            self.dead = False
            for x in h['states']:
                self.collect(x, uid0, self._live_vars())
            self.st = self.join(h['states'])[0]
            self.node('catch', type=h.get('tn', '...'))
            if h.get('d') is not None:
                fr.vars[h['d']] = self.newroot('exc')
            self.S(h['b'])
            if not self.dead:
                outs.append(self.st)
        self.resume(outs)

    # ------------------------------------------------------------------ external calls
    def ext_call(self, d, e, obj, split, dest):
        from ext import ext_call
        return ext_call(self, d, e, obj, split, dest)

    # ------------------------------------------------------------------ entry points
    def start(self):
        self.kids = {}
        self.frame_roots = {}
        self.st = State({}, [])
        self.G.entry = self.node('entry')
        # entry has no frame yet

    def run(self, fn, this=None, args=None):
        self.start()
        d = fn.decl
        if this is None and d is not None and d.method and not d.static:
            this = mk('root', 'this', 0, 'this')
        if d is not None and d.ctor and this is None:
            this = mk('root', 'this', 0, 'this')
        if args is None:
            args = []
            for p in fn.p:
                args.append((True, mk('root', 'param', 0, p['n'])))
        outs = self.inline(fn, this, args, {}, is_ctor=bool(d is not None and d.ctor))
        if outs:
            self.st = outs[0][0]
            self.dead = False
            n = self.node('exit', ret=outs[0][1][1])
            self.G.exits.append(n)
            self.G.result = outs[0][1]
            self.G.final_env = self.st.env
        self.G.walker = self
        return self.G

    def run_clos(self, other, clos, values=False):
        """graph of a closure created in the graph of walker `other`; captured places keep their names"""
        self.uid = other.uid + 100000
        fid, cap, this, tag = other.clos[clos]
        fn = self.P.fns.get(fid)
        if fn is None or fn.b is None:
            return None
        self.clos.update(other.clos)
        self.start()
        args = [(True, mk('root', 'param', 0, p['n'])) for p in fn.p]
        if values:
            # the values the enclosing function left in what the closure captured
            cap = {**other.clos_vars.get(clos, {}), **cap}
            self.st.env.update(getattr(other.G, 'final_env', {}))
        outs = self.inline(fn, this, args, {}, cap=cap)
        if outs:
            self.st = outs[0][0]
            self.dead = False
            n = self.node('exit', ret=outs[0][1][1])
            self.G.exits.append(n)
            self.G.result = outs[0][1]
            self.G.final_env = self.st.env
        self.G.walker = self
        return self.G

    def run_seq(self, steps, this):
        """one graph for a history of calls on the same object: each step's normal exit feeds the next step.
        Exceptional exits of any step end the history (kept in G.throws).  -> Graph with G.marks = [mark nodes]"""
        self.start()
        self.G.marks = []
        for i, fn in enumerate(steps):
            d = fn.decl
            args = [(True, mk('root', 'param', i, p['n'])) for p in fn.p]
            self.G.marks.append(self.node('mark', step=i, fn=d.qn if d else fn.qn))
            outs = self.inline(fn, this if d is None or not d.static else None, args, {},
                               is_ctor=bool(d is not None and d.ctor), keep_env=True)
            if not outs:
                break
            if len(outs) > 1:
                self.merge_outs(outs)
                if not outs:
                    break
            else:
                self.st = outs[0][0]
            self.dead = False
            self.G.result = outs[0][1]
        else:
            n = self.node('exit', ret=self.G.result[1])
            self.G.exits.append(n)
            self.G.final_env = self.st.env
        self.G.walker = self
        return self.G


def walk(prog, fn, this=None, args=None, **kw):
    w = Walker(prog, **kw)
    return w.run(fn, this, args)
