"""KPM turns expansion moments into the documented quantities."""
import cmath, math, random
from emit import *
from c05 import graph, pick, arg
from c12 import place_of, exit_value
from rand import Interp, A, L as Lst, V, Und, vec, same, conj

LEVEL = 'other'
RULE = ('Matrix-vector kernels compute y = H x - y over their rows and the partial products <x|x>, <y|x>; one generic pass of each recurrence '
        'loop takes vectors of Chebyshev order n-2 and n-1, slice by slice and in an order that respects the neighbourhood of slices, to n-1 '
        'and n, and collects every moment once from the right order; collectors turn them into <left|op|T_n right>; damping multiplies moment '
        'n (and m) by the kernel; reconstruction, starting vectors, velocity operator, products and averages are the documented formulas; on '
        'every path of every calculation the Hamiltonian is optimized with the same scale that is used for the number of moments and for the '
        'reconstruction, the kernel is applied exactly once after the expansion, and the size optimization is off when all sites take part; '
        'after another model is set, everything derived from it is renewed.')
EXPLAIN = ('Terms extracted from the inlined flow graph are compared with the documented formula by random interpretation: both are evaluated, '
           'as terms, at random points of their free variables. The recurrence loops are interpreted over an abstract domain of Chebyshev '
           'orders per slice, one generic pass at a time; the stages of a calculation are checked on every path of the flow graph.')
ASSUME = ['Eigen operations mean what they are documented to mean', 'the Hamiltonian is block tridiagonal in the slices and the vectors vanish beyond '
          'the slices reached so far (C12)', 'num_moments is 4k + 2 or even as asserted (round_num_moments is checked to give that)']
DRAWS = 3


def cplx(rnd, real=False):
    return rnd.uniform(-1, 1) if real else complex(rnd.uniform(-1, 1), rnd.uniform(-1, 1))


def close(x, y):
    return same(x, y, 1e-6)


def decide(R, f, lab, key, attempt, what, draws=DRAWS):
    """attempt(random source) -> (value, expected alternatives); equal in every draw: discharged"""
    rnd = random.Random(13)
    R.count('term identities')
    try:
        for k in range(draws):
            got, want = attempt(rnd)
            if not any(close(got, x) for x in want):
                R.bad(key, '%s: %s' % (lab, what), ['%s:%d' % (f.file, f.line), 'at a sample point the term is %s' % brief(got),
                                                   'and the documented formula is %s' % brief(want[0])])
                return False
    except Und as e:
        R.unknown('%s: %s (%s)' % (lab, what, str(e)[:80]))
        return None
    R.ok(lab)
    return True


def brief(x):
    if isinstance(x, complex):
        return '%.5g%+.5gi' % (x.real, x.imag)
    if isinstance(x, float):
        return '%.5g' % x
    if isinstance(x, A):
        return '%dx%d [%s]' % (x.r, x.c, ', '.join(brief(v) for v in x.d[:4]))
    if isinstance(x, list):
        return '[%s]' % ', '.join(brief(v) for v in x[:3])
    return str(x)[:60]


def ret(g):
    ex = [n for n in g.nodes if n.kind == 'exit']
    if len(ex) != 1 or not isinstance(ex[0].d.get('ret'), T):
        raise Und('no single result')
    return ex[0].d['ret']


def ptype(f, i):
    return str(f.decl.params[i].s)


def field(t, *names):
    return t.op == 'fld' and t.a[1] in names


# ---------------------------------------------------------------------------------------------- reconstruction
def scaled(E, a, b):
    return (E - b) / a


def spectral(m, e, a):
    return 2 / math.pi / a / math.sqrt(1 - e * e) * sum(complex(x).real * math.cos(n * math.acos(e)) for n, x in enumerate(m))


def greens(m, e, a):
    return -2j / a / math.sqrt(1 - e * e) * sum(x * cmath.exp(-1j * n * math.acos(e)) for n, x in enumerate(m))


def kubo(m, n, mus, es, temp, a, b, points):
    def gamma(i, j, e):
        q, t = math.sqrt(1 - e * e), math.acos(e)
        return ((e - 1j * j * q) * cmath.exp(1j * j * t) * math.cos(i * t)
                + (e + 1j * i * q) * cmath.exp(-1j * i * t) * math.cos(j * t))
    kb = 8.6173303e-5
    sc = [scaled(e, a, b) for e in es]
    f = [sum(m.at(i, j) * gamma(i, j, e) for i in range(n) for j in range(n)) / (1 - e * e) ** 2 for e in sc]
    out = []
    for mu in mus:
        fd = [1 / (1 + math.exp((e - scaled(mu, a, b)) * a / (kb * temp))) for e in sc]
        y = [p * q for p, q in zip(f, fd)]
        out.append(4 / a ** 2 * (max(sc) - min(sc)) / (2 * points) * (2 * sum(y) - y[0] - y[-1]))
    return vec(out)


def reconstruct(P, R):
    base = 'cpb::kpm::'
    for cls in ('SpectralDensity', 'GreensFunction', 'KuboBastin'):
        fs = pick(P, base + cls + '::operator()')
        R.need(fs, base + cls + '::operator()')
        R.count('reconstructions', len(fs))
        for f in fs:
            g, w = graph(P, f)
            two = {'v': None}

            def attempt(rnd, form):
                n = rnd.choice((4, 5, 6))
                a, b = rnd.uniform(2, 5), rnd.uniform(-1, 1)
                es = sorted(rnd.uniform(b - 0.9 * a, b + 0.9 * a) for _ in range(4))
                mus = [rnd.uniform(b - 0.9 * a, b + 0.9 * a) for _ in range(3)]
                temp = rnd.uniform(4000, 9000)
                mom = {'one': vec([cplx(rnd) for _ in range(n)]), 'two': A(n, 2, [cplx(rnd) for _ in range(2 * n)]),
                       'list': Lst(vec([cplx(rnd) for _ in range(n)]) for _ in range(2)), 'square': A(n, n, [cplx(rnd) for _ in range(n * n)])}[form]

                def leaf(t, I):
                    if t is arg(0):
                        return mom
                    if t.op == 'fld':
                        if t.a[1] in ('energy', 'energy_samples'):
                            return vec(es)
                        if t.a[1] == 'chemical_pot':
                            return vec(mus)
                        if t.a[1] == 'temperature':
                            return temp
                        if t.a[1] == 'a':
                            return a
                        if t.a[1] == 'b':
                            return b
                    if t.op == 'root' and str(t.a[-1]) == 'cpb::constant::kb':
                        return 8.6173303e-5
                    return None
                got = Interp(g, w, leaf).ev(ret(g))
                fn = spectral if cls == 'SpectralDensity' else greens
                if form == 'one':
                    want = [vec([fn(mom.d, scaled(e, a, b), a) for e in es])]
                elif form == 'two':
                    want = [A(4, 2, [fn(mom.col(j).d, scaled(e, a, b), a) for e in es for j in range(2)])]
                elif form == 'list':
                    want = [Lst(vec([fn(m.d, scaled(e, a, b), a) for e in es]) for m in mom)]
                else:
                    want = [kubo(mom, n, mus, es, temp, a, b, k) for k in (len(es), len(es) - 1)]
                return got, want
            t = ptype(f, 0)
            form = ('square' if cls == 'KuboBastin' else 'list' if 'vector' in t else 'two' if is_two(t) else 'one')
            decide(R, f, '%s of %s' % (cls, t.replace('const ', '')), 'reconstruct:%s:%s' % (cls, form), lambda rnd: attempt(rnd, form),
                   'the function reconstructed from the moments is not the documented one')


def is_two(t):
    """two-dimensional array type?"""
    return t.count('-1') >= 4 or 'ArrayXX' in t



# ---------------------------------------------------------------------------------------------- kernels
def jackson(N):
    q = math.pi / (N + 1)
    return [((N + 1 - n) * math.cos(q * n) + math.sin(q * n) / math.tan(q)) / (N + 1) for n in range(N)]


def lorentz(N, lam):
    return [math.sinh(lam * (1 - n / N)) / math.sinh(lam) for n in range(N)]


def rounded(n):
    return 2 if n < 2 else n + -(n - 2) % 4


def callable_field(t, f):
    if t.op == 'obj':
        for k, v in t.a[1:]:
            if k == f:
                return v
    return None


def kernels(P, R):
    for name in ('jackson_kernel', 'lorentz_kernel', 'dirichlet_kernel'):
        fs = pick(P, 'cpb::kpm::' + name)
        R.need(len(fs) == 1, 'cpb::kpm::' + name)
        f = fs[0]
        g, w = graph(P, f)
        for field_ in ('damping_coefficients', 'required_num_moments'):
            R.count('kernel functions')
            try:
                c = callable_field(ret(g), field_)
            except Und:
                c = None
            if c is None or c not in w.clos:
                R.unknown('%s: %s is not a known callable' % (name, field_))
                continue
            w2 = type(w)(P)
            g2 = w2.run_clos(w, c, values=True)
            if g2 is None:
                R.unknown('%s: %s' % (name, field_))
                continue

            def attempt(rnd):
                lam = rnd.uniform(2.5, 5.5)
                p = rnd.choice((6, 10, 14, 5, 2, 7)) if field_[0] == 'd' else rnd.choice((rnd.uniform(0.05, 0.9), 4.0, 0.5, rnd.uniform(1.2, 3)))

                def leaf(t, I):
                    if t is arg(0):
                        return lam
                    if t.op == 'root' and t.a[0] == 'param':
                        return p
                    return None
                got = Interp(g2, w2, leaf).ev(ret(g2))
                if field_[0] == 'd':
                    return got, [vec(jackson(p) if name[0] == 'j' else lorentz(p, lam) if name[0] == 'l' else [1.0] * p)]
                return got, [rounded(math.trunc((lam if name[0] == 'l' else math.pi) / p) + 1)]
            decide(R, f, '%s: %s' % (name, field_), 'kernel:%s:%s' % (name, field_), attempt,
                   'the %s of the kernel are not the documented ones' % field_.replace('_', ' '), 12)
    fs = pick(P, 'cpb::kpm::round_num_moments')
    if fs:
        g, w = graph(P, fs[0])
        for n in range(-1, 30):
            decide(R, fs[0], 'round_num_moments(%d)' % n, 'round_num_moments', lambda rnd: (Interp(g, w, lambda t, I: n if t is arg(0) else None).ev(ret(g)), [rounded(n)]),
                   'the number of moments is not rounded up to 2 + 4k', 1)


def final(g, place):
    """value of a place when the function returns"""
    env = g.final_env
    return env.get(place)


def apply_kernel(P, R):
    fs = pick(P, 'cpb::kpm::Kernel::operator()')
    R.need(fs, 'cpb::kpm::Kernel::operator()')
    R.count('damped moment types', len(fs))
    for f in fs:
        g, w = graph(P, f)
        t = ptype(f, 0)
        form = 'list' if 'vector' in t else 'square' if 'Matrix<' in t else 'two' if is_two(t) else 'one'

        def attempt(rnd):
            n = rnd.choice((4, 5, 6))
            one = lambda: vec([cplx(rnd) for _ in range(n)])
            mom = {'one': one, 'two': lambda: A(n, 3, [cplx(rnd) for _ in range(3 * n)]), 'square': lambda: A(n, n, [cplx(rnd) for _ in range(n * n)]),
                   'list': lambda: Lst(one() for _ in range(3))}[form]()
            gs = {k: [rnd.uniform(0, 1) for _ in range(k)] for k in (n, 3, 3 * n, n * n)}

            def leaf(t, I):
                if t is arg(0):
                    return mom
                if t.op == 'call' and str(t.a[0]) == '<user>' and len(t.a) == 3 and 'damping' in show(t.a[1]):
                    k = I.num(t.a[2])
                    if k not in gs:
                        raise Und('damping coefficients of %d' % k)
                    return vec(gs[k])
                return None
            got = Interp(g, w, leaf).ev(outcome(g, arg(0)))
            c = gs[n]
            if form == 'square':
                want = A(n, n, [mom.at(i, j) * c[i] * c[j] for i in range(n) for j in range(n)])
            elif form == 'two':
                want = A(n, 3, [mom.at(i, j) * c[i] for i in range(n) for j in range(3)])
            elif form == 'list':
                want = Lst(vec([x * y for x, y in zip(m.d, c)]) for m in mom)
            else:
                want = vec([x * y for x, y in zip(mom.d, c)])
            return got, [want]
        decide(R, f, 'kernel applied to %s' % t, 'apply:%s' % form, attempt, 'the moments are not multiplied by the damping coefficients of their order')


def outcome(g, place):
    """what the function leaves in a place: its value, with the writes to its parts"""
    env = getattr(g, 'final_env', None)
    if env is None:
        raise Und('no normal return')
    w = g.walker
    w.st.env = env
    return w.read(place)



# ---------------------------------------------------------------------------------------------- collecting moments
THIS = mk('root', 'this', 0, 'this')


def hermitian(rnd, n, real):
    h = [[0] * n for _ in range(n)]
    for i in range(n):
        h[i][i] = rnd.uniform(-1, 1)
        for j in range(i):
            h[i][j] = cplx(rnd, real)
            h[j][i] = conj(h[i][j])
    return A(n, n, [x for r in h for x in r])


def matvec(h, v):
    return vec([sum(h.at(i, j) * v.d[j] for j in range(h.c)) for i in range(h.r)])


def dot(x, y):
    return sum(conj(p) * q for p, q in zip(x.d, y.d))


def this_fields(g):
    """fields of this object with a value of their own at the end"""
    out = {}
    for k in g.final_env:
        p = k
        while p.op in ('elem', 'sub', 'alt', 'fld') and not (p.op == 'fld' and p.a[0] is THIS):
            p = p.a[0]
        if p.op == 'fld' and p.a[0] is THIS:
            out[p] = True
    return list(out)


def is_field(t):
    return t.op == 'fld' and t.a[0] is THIS


def collectors(P, R):
    for cls in ('DiagonalCollector', 'BatchDiagonalCollector', 'GenericCollector', 'MultiUnitCollector', 'DenseMatrixCollector'):
        qn = 'cpb::kpm::' + cls + '::'
        ini, nxt = pick(P, qn + 'initial'), pick(P, qn + 'operator()')
        R.need(ini and len(ini) == len(nxt), qn + 'initial')
        R.count('collectors', len(ini))
        for f, f2 in zip(ini, nxt):
            real = 'complex' not in ptype(f, 0)
            g, w = graph(P, f)
            g2, w2 = graph(P, f2)
            for filled in ((False, True) if cls in ('GenericCollector', 'DenseMatrixCollector') else (None,)):
                lab = '%s of %s%s' % (cls, 'real' if real else 'complex', '' if filled is None else ' with an operator' if filled else ' without operator')
                state = {}

                def setup(rnd):
                    n, N = 4, 8
                    cols = 3 if cls[:5] == 'Batch' else 1
                    h = hermitian(rnd, n, real)
                    v0 = [vec([cplx(rnd, real) for _ in range(n)]) for _ in range(cols)]
                    v1 = [matvec(h, v) for v in v0]
                    join = lambda vs: vs[0] if cols == 1 else A(n, cols, [v.d[i] for i in range(n) for v in vs])
                    old = [cplx(rnd) for _ in range(N * max(cols, n))]
                    dest = [2, 0, 3]
                    op = A(n, n, [cplx(rnd, real) for _ in range(n * n)]) if filled else A(0, 0, [])
                    moments = {'Diagona': vec(old[:N]), 'BatchDi': A(N, cols, old[:N * cols]), 'Generic': vec(old[:N]),
                               'MultiUn': Lst(vec(old[k:k + N]) for k in range(3)), 'DenseMa': A(N, n, old[:N * n])}[cls[:7]]
                    beta = vec([cplx(rnd, real) for _ in range(n)])
                    return dict(n=n, N=N, cols=cols, h=h, v0=v0, v1=v1, r0=join(v0), r1=join(v1), dest=dest, op=op, moments=moments, beta=beta)

                def leaf_of(c, extra):
                    def leaf(t, I):
                        if t in extra:
                            return extra[t]
                        if is_field(t):
                            if t.a[1] in ('moments', 'op', 'beta'):
                                return c[t.a[1]]
                            if cls[:5] == 'Batch':
                                return Lst([0.0] * c['cols'])
                        if field(t, 'dest'):
                            return Lst(c['dest'])
                        return None
                    return leaf

                def apply(c, v):
                    return matvec(c['op'], v) if filled else v

                def attempt(rnd):
                    c = setup(rnd)
                    I = Interp(g, w, leaf_of(c, {arg(0): c['r0'], arg(1): c['r1']}))
                    got = I.ev(outcome(g, mk('fld', THIS, 'moments')))
                    return got, [expect(c, {0: 0.5, 1: 1.0}, {0: c['v0'], 1: c['v1']}, c['moments'])]

                def expect(c, factor, vs, old):
                    m = old
                    for k in vs:
                        for j, v in enumerate(vs[k]):
                            if cls[:4] == 'Diag':
                                m = put1(m, k, factor[k] * dot(c['v0'][0], v))
                            elif cls[:5] == 'Batch':
                                m = put2(m, k, j, factor[k] * dot(c['v0'][j], v))
                            elif cls[:7] == 'Generic':
                                m = put1(m, k, factor[k] * dot(c['beta'], apply(c, v)))
                            elif cls[:5] == 'Multi':
                                m = Lst(put1(x, k, factor[k] * v.d[d]) for x, d in zip(m, c['dest']))
                            else:
                                u = apply(c, v)
                                for i in range(c['n']):
                                    m = put2(m, k, i, factor[k] * u.d[i])
                    return m

                def attempt2(rnd):
                    c = setup(rnd)
                    k = rnd.choice((2, 3, 4))
                    T = [c['v0'], c['v1']]
                    for _ in range(3):
                        T.append([vec([2 * x - y for x, y in zip(matvec(c['h'], p).d, q.d)]) for p, q in zip(T[-1], T[-2])])
                    if cls[:4] == 'Diag' or cls[:5] == 'Batch':
                        # what the first step left in the fields, then one step with m2 = <T(n-1)|T(n-1)>, m3 = <T(n)|T(n-1)>
                        I = Interp(g, w, leaf_of(c, {arg(0): c['r0'], arg(1): c['r1']}))
                        extra = {}
                        for p in this_fields(g):
                            if p.a[1] != 'moments':
                                extra[p] = I.ev(outcome(g, p))
                        m2 = [dot(u, u) for u in T[k - 1]]
                        m3 = [dot(u, v) for u, v in zip(T[k], T[k - 1])]
                        one_ = cls[:4] == 'Diag'
                        extra.update({arg(0): k, arg(1): m2[0] if one_ else Lst(m2), arg(2): m3[0] if one_ else Lst(m3)})
                        got = Interp(g2, w2, leaf_of(c, extra)).ev(outcome(g2, mk('fld', THIS, 'moments')))
                        m = c['moments']
                        for j in range(c['cols']):
                            a, b = 2 * m2[j] - dot(c['v0'][j], c['v0'][j]), 2 * m3[j] - dot(c['v1'][j], c['v0'][j])
                            m = put1(put1(m, 2 * k - 2, a), 2 * k - 1, b) if one_ else put2(put2(m, 2 * k - 2, j, a), 2 * k - 1, j, b)
                        return got, [m]
                    v = T[k][0]
                    got = Interp(g2, w2, leaf_of(c, {arg(0): k, arg(1): v})).ev(outcome(g2, mk('fld', THIS, 'moments')))
                    return got, [expect(c, {k: 1.0}, {k: [v]}, c['moments'])]
                decide(R, f, lab + ': moments 0 and 1', 'collect:%s:initial' % cls, attempt, 'the first two moments are not <l|r0>/2 and <l|r1>')
                decide(R, f2, lab + ': moment n', 'collect:%s:step' % cls, attempt2, 'the moments collected at step n are not those of the Chebyshev vectors')


def put1(m, k, v):
    x = A(m.r, m.c, m.d)
    x.d[k] = v
    return x


def put2(m, i, j, v):
    x = A(m.r, m.c, m.d)
    x.d[i * m.c + j] = v
    return x



# ---------------------------------------------------------------------------------------------- the Chebyshev step
def sparse_sample(rnd, n, real):
    """a matrix with rows of different lengths: dense form, compressed rows and padded rows"""
    rows = []
    for i in range(n):
        cols = sorted(rnd.sample(range(n), (2, 1, 3, 2, 3)[i % 5]))
        rows.append([(j, cplx(rnd, real)) for j in cols])
    h = A(n, n, [dict(rows[i]).get(j, 0) for i in range(n) for j in range(n)])
    ptr = [0]
    for r in rows:
        ptr.append(ptr[-1] + len(r))
    wide = max(len(r) for r in rows)
    data = A(n, wide, [rows[i][k][1] if k < len(rows[i]) else 0 for i in range(n) for k in range(wide)])
    ind = A(n, wide, [rows[i][k][0] if k < len(rows[i]) else 0 for i in range(n) for k in range(wide)])
    return dict(h=h, valuePtr=Lst(v for r in rows for _, v in r), innerIndexPtr=Lst(j for r in rows for j, _ in r), outerIndexPtr=Lst(ptr),
                data=data, indices=ind, nnz_per_row=wide, _rows=n, _cols=n)


def matmul(h, x):
    return A(h.r, x.c, [sum(h.at(i, k) * x.at(k, j) for k in range(h.c)) for i in range(h.r) for j in range(x.c)])


def of_matrix(m, c):
    """meaning of the parts of the matrix argument m"""
    def leaf(t, I):
        if t.op == 'fld' and t.a[0] is m and t.a[1] in c:
            return c[t.a[1]]
        if t.op == 'call' and len(t.a) == 2 and t.a[1] is m and t.a[0] in ('rows', 'cols', 'outerSize', 'innerSize'):
            return c['_rows']
        return None
    return leaf


def chebyshev(P, R):
    for qn in ('cpb::compute::kpm_spmv', 'cpb::compute::kpm_spmv_diagonal', 'cpb::kpm::make_r1'):
        fs = pick(P, qn)
        R.need(fs, qn)
        R.count('matrix-vector kernels', len(fs))
        for f in fs:
            first = qn.endswith('make_r1')
            diag = qn.endswith('diagonal')
            vt = ptype(f, 1 if first else 3)
            real, many = 'complex' not in vt, is_two(vt)
            g, w = graph(P, f)

            def attempt(rnd):
                n = 5
                cols = 3 if many else 1
                c = sparse_sample(rnd, n, real)
                x, y = (A(n, cols, [cplx(rnd, real) for _ in range(n * cols)]) for _ in range(2))
                s, e = sorted(rnd.sample(range(n + 1), 2))
                m2, m3 = ([cplx(rnd, real) for _ in range(cols)] for _ in range(2))
                pack = lambda v: Lst(v) if many else v[0]
                mat = of_matrix(arg(0 if first else 2), c)
                given = {arg(0): s, arg(1): e, arg(3): x, arg(4): y, arg(5): pack(m2), arg(6): pack(m3)} if not first else {arg(1): x}

                def leaf(t, I):
                    return given[t] if t in given else mat(t, I)
                I = Interp(g, w, leaf)
                hx = matmul(c['h'], x)
                if first:
                    return I.ev(ret(g)), [hx.map(lambda v: v / 2)]
                new = A(n, cols, y.d)
                for i in range(s, e):
                    for j in range(cols):
                        new.d[i * cols + j] = hx.at(i, j) - y.at(i, j)
                if not diag:
                    return I.ev(outcome(g, arg(4))), [new]
                got = Lst([I.ev(outcome(g, arg(4))), I.ev(outcome(g, arg(5))), I.ev(outcome(g, arg(6)))])
                part = lambda v, j: vec(v.col(j).d[s:e])
                n2 = [m2[j] + dot(part(x, j), part(x, j)) for j in range(cols)]
                n3 = [m3[j] + dot(part(new, j), part(x, j)) for j in range(cols)]
                return got, [Lst([new, pack(n2), pack(q)]) for q in (n3, [m3[j] + conj(v - m3[j]) for j, v in enumerate(n3)])]
            lab = '%s with %s, %s' % (qn.split('::')[-1], 'ELL' if 'EllMatrix' in ptype(f, 0 if first else 2) else 'CSR', vt[:70])
            decide(R, f, lab, '%s:%s' % (qn.split('::')[-1], 'ell' if 'ELL' in lab else 'csr'), attempt,
                   'the result is not H2 r0 / 2' if first else 'the result is not y <- H2 x - y on rows [start, end)' + (' with |x|^2 and <y|x>' if diag else ''), 4)



# ---------------------------------------------------------------------------------------------- starting vectors
def vector_of(f):
    """scalar of the tag parameter of a starter's call operator"""
    t = ptype(f, 0)
    return None if 'variant' in t or not t.startswith('cpb::var::tag<') else 'complex' if 'complex' in t else 'real'


def starters(P, R):
    n = 6
    for cls in ('ConstantStarter', 'UnitStarter', 'RandomStarter'):
        fs = [f for f in pick(P, 'cpb::kpm::' + cls + '::operator()') if vector_of(f)]
        if not fs:
            R.unknown('cpb::kpm::%s is not found' % cls)
        R.count('starters', len(fs))
        for f in fs:
            g, w = graph(P, f)
            real = vector_of(f) == 'real'
            for mapped in (False, True):
                for filled in ((False, True) if cls[0] == 'R' else (False,)):
                    def attempt(rnd):
                        perm = list(range(n))
                        rnd.shuffle(perm)
                        alpha = [cplx(rnd, real) for _ in range(n)]
                        src = [4, 1, 3]
                        k = rnd.choice((0, 1, 2, 3))
                        diag = [rnd.uniform(0.5, 3) for _ in range(n)]
                        op = A(n, n, [diag[i] if i == j else 0 for i in range(n) for j in range(n)])
                        draws = [(i + 0.25) / n for i in range(n)]
                        rnd.shuffle(draws)

                        def leaf(t, I):
                            if field(t, 'reorder_map'):
                                return Lst(perm if mapped else [])
                            if t.op == 'call' and str(t.a[0]).startswith('std::uniform_real_distribution'):
                                ks = [v for x, v in I.env.items() if x.op == 'lv' and type(v) is int]
                                if not ks:
                                    raise Und('draw')
                                return draws[ks[-1] % n]
                            if t.op == 'call' and t.a[0] in ('rows', 'cols') and 'original_h' in show(t, 9):
                                return n
                            if t.op == 'sel' and t.a[0].op == 'altis':
                                return I.ev(t.a[1]) if t.a[1].op != 'sel' else None
                            if t.op == 'fld':
                                if t.a[1] == 'alpha':
                                    return vec(alpha)
                                if t.a[1] == 'sources':
                                    return vec(src)
                                if t.a[1] == 'size':
                                    return n
                                if t.a[1] == 'i':
                                    return k
                                if t.a[1] == 'ptr' and 'op' in show(t.a[0], 4):
                                    return op if filled else False
                            if t.op == 'alt' and 'op' in show(t, 6) and filled:
                                return op
                            if t.op == 'eq' and any(x.op == 'null' for x in t.a) and 'op' in show(t, 6):
                                return not filled
                            if t.op == 'call' and str(t.a[0]).split('::')[-1] == 'force_cast':
                                return I.ev(t.a[-1])
                            return None
                        got = Interp(g, w, leaf).ev(ret(g))
                        if not isinstance(got, A) or len(got.d) != n:
                            raise Und('result')
                        back = [got.d[perm[i]] for i in range(n)] if mapped else got.d
                        if cls[0] == 'C':
                            return vec(back), [vec(alpha)]
                        if cls[0] == 'U':
                            return got, [vec([1.0 if k < len(src) and i == src[k] else 0.0 for i in range(n)])]
                        u = [x / diag[i] for i, x in enumerate(back)] if filled else back
                        # unit modulus, zero mean over the draws and, when complex, zero mean square
                        inv = vec([abs(x) ** 2 for x in u] + [abs(sum(u)), 0.0 if real else abs(sum(x * x for x in u))]
                                  + [abs(complex(x).imag) if real else 0.0 for x in u])
                        return inv, [vec([1.0] * n + [0.0] * (n + 2))]
                    lab = '%s of %s%s%s' % (cls, 'real' if real else 'complex', ' reordered' if mapped else '', ' with operator' if filled else '')
                    decide(R, f, lab, 'starter:%s' % cls, attempt,
                           {'C': 'the starting vector is not alpha in the reordered basis', 'U': 'the starting vector is not the unit vector of the next source',
                            'R': 'the starting vector is not the operator applied to a random phase vector, in the reordered basis'}[cls[0]], 6)



# ---------------------------------------------------------------------------------------------- scale and conductivity
def mat(rnd, r, c, real=False):
    return A(r, c, [cplx(rnd, real) for _ in range(r * c)])


def algebra(P, R):
    for f in pick(P, 'cpb::kpm::MatrixMulAdd::operator()'):
        g, w = graph(P, f)

        def attempt(rnd):
            a, b, c = mat(rnd, 3, 5), mat(rnd, 3, 5), mat(rnd, 3, 3)

            def leaf(t, I):
                if t is arg(0):
                    return b
                if t.op == 'fld' and t.a[0] is THIS:
                    return c if t is acc else a
                return None
            keys = [k for k, v in g.final_env.items() if isinstance(v, T) and v.op == 'var' and any(x is THIS for x in subterms(k))]
            if len(keys) != 1:
                raise Und('result')
            acc = [x for x in subterms(keys[0]) if x.op == 'fld' and x.a[0] is THIS]
            if len(acc) != 1:
                raise Und('result')
            acc = acc[0]
            return Interp(g, w, leaf).ev(g.final_env[keys[0]].a[1]), [A(3, 3, [x + y for x, y in zip(c.d, matmul(a, b.t.map(conj)).d)])]
        decide(R, f, 'accumulated product of %s' % ptype(f, 0), 'conductivity:product', attempt, 'the moment matrix is not increased by left * right^dagger')
        R.count('moment matrices')
    for f in pick(P, 'cpb::kpm::Velocity::operator()'):
        g, w = graph(P, f)
        real = 'complex' not in ptype(f, 0)

        def attempt(rnd):
            n = 5
            c = sparse_sample(rnd, n, real)
            al = [rnd.uniform(-3, 3) for _ in range(n)]
            loc = [k for k in g.final_env if k.op == 'fld' and k.a[1] == 'valuePtr' and root_of(k).op == 'root' and root_of(k).a[0] == 'loc']
            if len(loc) != 1:
                raise Und('values')

            def leaf(t, I):
                if t.op == 'fld' and t.a[1] in ('valuePtr', 'innerIndexPtr', 'outerIndexPtr') and (root_of(t) is root_of(loc[0]) or any(x is arg(0) for x in subterms(t))):
                    return c[t.a[1]]
                if t.op == 'call' and len(t.a) == 2 and t.a[0] in ('rows', 'cols', 'outerSize'):
                    return n
                if t.op == 'fld' and t.a[0] is THIS:
                    return vec(al)
                return None
            want, k = [], 0
            for i in range(n):
                for _ in range(c['outerIndexPtr'][i], c['outerIndexPtr'][i + 1]):
                    want.append(c['valuePtr'][k] * (al[i] - al[c['innerIndexPtr'][k]]))
                    k += 1
            return Interp(g, w, leaf).ev(g.final_env[loc[0]]), [Lst(want)]
        decide(R, f, 'velocity of %s' % ('real' if real else 'complex'), 'conductivity:velocity', attempt,
               'the velocity operator is not H(i, j) (x_i - x_j)')
        R.count('velocity operators')
    for f in pick(P, 'cpb::kpm::Scale::Scale', 2):
        g, w = graph(P, f)

        def attempt(rnd):
            lo, hi = sorted((rnd.uniform(-6, 6), rnd.uniform(-6, 6)))
            far = rnd.choice((0, 20))
            lo, hi = lo + far, hi + far

            def leaf(t, I):
                if t is arg(0):
                    return lo
                if t is arg(1):
                    return hi
                if t.op == 'root' and str(t.a[-1]).endswith('::tolerance'):
                    return 0.01
                return None
            I = Interp(g, w, leaf)
            a, b = I.ev(outcome(g, mk('fld', THIS, 'a'))), I.ev(outcome(g, mk('fld', THIS, 'b')))
            # the spectrum ends up strictly inside (-1, 1) and fills most of it
            inside = -1 < (lo - b) / a and (hi - b) / a < 1 and (hi - lo) / (2 * a) > 0.9
            return (1 if inside else 0), [1]
        decide(R, f, 'scaling factors', 'scale', attempt, 'the scaled spectrum does not lie inside (-1, 1)', 12)
        R.count('scaling factors')
    for f in pick(P, 'cpb::kpm::Scale::operator()', 1):
        g, w = graph(P, f)

        def attempt(rnd):
            a, b, v = rnd.uniform(1, 4), rnd.uniform(-1, 1), vec([rnd.uniform(-4, 4) for _ in range(4)])
            got = Interp(g, w, lambda t, I: v if t is arg(0) else a if field(t, 'a') else b if field(t, 'b') else None).ev(ret(g))
            return got, [v.map(lambda e: (e - b) / a)]
        decide(R, f, 'scaled values', 'scale:apply', attempt, 'the scaled energy is not (E - b) / a')


# ---------------------------------------------------------------------------------------------- recurrence
class Bad(Exception):
    pass


class Ghost:
    """Chebyshev orders of the vectors, slice by slice, through one generic pass of the recurrence loop"""

    def __init__(self, g, w, top, n, N, opt, cut):
        self.g, self.w, self.top, self.n, self.N, self.opt, self.cut = g, w, top, n, N, opt, cut
        self.S = 4
        self.data = [10 * (k + 1) for k in range(self.S)]
        self.upd = {}
        self.val = {}      # term -> orders of a vector, or contributions of an accumulator
        self.num = {}      # loop value -> number
        self.seen = []     # what was collected
        self.nominal = {}

    def scalar(self, t):
        def leaf(x, I):
            if x in self.num:
                return self.num[x]
            if x is arg(5):
                return self.opt
            if x.op == 'call' and str(x.a[0]).endswith('SliceMap::index') or x.op == 'call' and str(x.a[0]).endswith('SliceMap::optimal_size'):
                m, N = I.ev(x.a[2]), I.ev(x.a[3])
                if N != self.N:
                    raise Bad('the slices are those of another number of moments')
                if m not in self.cut:
                    raise Bad('the slices used are those of moment n%+d' % (m - self.n))
                return self.cut[m] if str(x.a[0]).endswith('index') else self.data[self.cut[m]]
            if x.op == 'elem' and root_of(x) is arg(4):
                k = I.ev(x.a[1])
                if not 0 <= k < self.S:
                    raise Bad('slice %s of %d' % (k, self.S))
                return self.data[k]
            if x.op == 'size' and root_of(x.a[0]) is arg(4):
                return self.S
            if (x.op == 'size' or x.op == 'call' and x.a[0] in ('size', 'rows')) and root_of(x.a[-1]) is arg(0):
                return self.N
            if x.op == 'dynis':
                return False
            if (x.op == 'call' and x.a[0] in ('rows', 'cols') or x.op == 'fld' and str(x.a[1]).strip('_') in ('rows', 'cols')) and root_of(x) is arg(3) or \
                    x.op == 'call' and x.a[0] in ('rows', 'cols') and root_of(x.a[1]) is arg(3):
                return self.data[-1]
            return None
        return Interp(self.g, self.w, leaf).ev(t)

    def vector(self, t):
        if t in self.val:
            return self.val[t]
        if t.op == 'upd' and t.a[0] in self.upd:
            return self.upd[t.a[0]]
        if t.op == 'sub' and t.a[1] == 'map' or t.op in ('deref', 'addr') or t.op == 'call' and str(t.a[0]).split('::')[-1] in ('ref', 'forward', 'move'):
            return self.vector(t.a[-1] if t.op == 'call' else t.a[0])
        if t.op == 'sel':
            return self.vector(t.a[1] if self.scalar(t.a[0]) else t.a[2])
        if t is arg(1):
            return [0] * self.S
        if t is arg(2):
            return [1] * self.S
        z = t
        while z.op in ('obj', 'list', 'call', 'var') and z.a:
            if z.op == 'obj':
                z = z.a[-1][1] if isinstance(z.a[-1], tuple) else z.a[-1]
            elif z.op == 'list':
                if len(set(z.a)) != 1:
                    break
                z = z.a[0]
            elif z.op == 'var':
                z = z.a[1]
            elif str(z.a[0]).endswith('::ctor') or str(z.a[0]).endswith('::zero'):
                if len(z.a) == 1:
                    return ()
                if len(set(z.a[1:])) != 1:
                    break
                z = z.a[1]
            else:
                break
        if is_const(z) and not isinstance(z.a[0], str) and z.a[0] == 0:
            return ()
        raise Und('value %s' % show(t, 4)[:60])

    def slices(self, lo, hi):
        edge = [0] + self.data
        if lo not in edge or hi not in edge:
            raise Bad('rows %s to %s are not whole slices' % (lo, hi))
        return list(range(edge.index(lo), edge.index(hi)))

    def kernel(self, args, diag):
        lo, hi = self.scalar(args[0]), self.scalar(args[1])
        if root_of(args[2]) is not arg(3):
            raise Bad('the kernel is applied to something else than the Hamiltonian')
        x, y = list(self.vector(args[3])), list(self.vector(args[4]))
        rows = self.slices(lo, hi)
        self.reach = max([self.reach] + rows)
        for q in range(self.bound + 1, self.S):
            x[q] = y[q] + 1
        for s in rows:
            for q in (s - 1, s, s + 1):
                # beyond the rows computed so far the vector is still zero
                if 0 <= q < self.S and x[q] != y[s] + 1 and q <= self.bound:
                    raise Bad('slice %d of order %d is computed from slice %d of order %d, not %d'
                              % (s, y[s] + 2, q, x[q], y[s] + 1))
            y[s] += 2
        out = [y]
        if diag:
            acc = [self.vector(a) for a in args[5:7]]
            for a in acc:
                if not isinstance(a, tuple):
                    raise Und('accumulator')
            out += [acc[0] + tuple((s, x[s], x[s]) for s in rows), acc[1] + tuple((s, y[s], x[s]) for s in rows)]
        return out

    def run(self, diag):
        """one pass from the head of the loop back to it"""
        w = self.w
        self.reach = -1
        self.bound = max(self.cut[self.n], -1)
        heads = {}
        for lv, info in w.lvinfo.items():
            heads.setdefault(lv.a[0], []).append((lv, info))
        node, prev, steps = self.top, None, 0
        pending = []
        inner = set()
        while True:
            steps += 1
            if steps > 4000:
                raise Und('loop')
            if node is self.top and prev is not None:
                return
            if node.kind == 'loop' and node is not self.top:
                k = 1 if node.id in inner else 0
                inner.add(node.id)
                new = []
                for lv, info in heads.get(node.lid, []):
                    src = info[k]
                    if k and len(info) != 2:
                        raise Und('loop')
                    v = x = None
                    try:
                        v = self.vector(src)
                    except Und:
                        pass
                    try:
                        x = self.scalar(src)
                    except Und:
                        pass
                    new.append((lv, v, x))
                for lv, v, x in new:
                    self.val.pop(lv, None)
                    self.num.pop(lv, None)
                    if v is not None:
                        self.val[lv] = v
                    if x is not None:
                        self.num[lv] = x
            if node.kind == 'exit':
                raise Und('exit')
            prev = node
            if node.kind == 'call':
                fn = str(node.d.get('fn'))
                if fn.endswith('kpm_spmv') or fn.endswith('kpm_spmv_diagonal'):
                    pending = self.kernel(node.d['args'], fn.endswith('diagonal'))
                elif node.d.get('method') == 'operator()' or fn.endswith('operator()'):
                    self.seen.append([self.scalar(node.d['args'][0])] + [self.vector(a) for a in node.d['args'][1:]])
                    pending = []
            elif node.kind == 'mut' and pending and 'uid' in node.d:
                self.upd[node.d['uid']] = pending.pop(0)
            elif node.kind == 'enter' and str(node.d.get('fn')).endswith('Collector::operator()'):
                # which collector it is does not matter, but each must be told the same
                self.seen.append([self.scalar(node.d['args'][0])] + [self.vector(a) for a in node.d['args'][1:]])
                out = [x for x in self.g.nodes if x.kind == 'leave' and x.d.get('fn') == node.d['fn'] and x.id > node.id]
                if not out:
                    raise Und('collector')
                node = out[0]
            if len(node.succ) == 1:
                node = node.succ[0][0]
            else:
                c = node.d.get('cond')
                v = bool(self.scalar(c))
                nx = [m for m, l in node.succ if l is v]
                if len(nx) != 1:
                    raise Und('branch')
                node = nx[0]


def recurrence(P, R):
    for name in ('basic', 'interleaved'):
        fs = pick(P, 'cpb::kpm::calc_moments::' + name)
        R.need(fs, 'calc_moments::' + name)
        for f in fs:
            kern = ['cpb::compute::kpm_spmv', 'cpb::compute::kpm_spmv_diagonal', 'cpb::kpm::SliceMap::index', 'cpb::kpm::SliceMap::optimal_size'] \
                + [q for q in P.fns_by_qn if q.startswith('cpb::kpm::') and q.endswith('Collector::operator()')]
            g, w = graph(P, f, kern)
            R.count('recurrences')
            lab = '%s of %s, %s' % (name, ptype(f, 0).replace('cpb::kpm::', ''), ptype(f, 3).split('<')[0].split('::')[-1])
            try:
                passes(f, g, w, R)
            except Bad as e:
                R.bad('recurrence:%s' % name, '%s: %s' % (lab, e), ['%s:%d' % (f.file, f.line)])
            except Und as e:
                R.unknown('%s: recurrence (%s)' % (lab, e))
            else:
                R.ok('%s: moment n is T_n, each is collected once' % lab)


def passes(f, g, w, R):
    calls = [n for n in g.nodes if n.kind == 'call']
    diag = any(str(n.d.get('fn')).endswith('kpm_spmv_diagonal') for n in calls)
    tops = [n for n in g.nodes if n.kind == 'loop']
    if not tops:
        raise Und('no loop')
    top = tops[0]
    vals = {lv: info for lv, info in w.lvinfo.items() if lv.a[0] == top.lid}
    counters = [(lv, i) for lv, i in vals.items() if len(i) == 2 and is_const(i[0]) and i[1].op == 'add' and any(x is lv for x in i[1].a)]
    if len(counters) != 1:
        raise Und('counter')
    n_lv, (start, nxt) = counters[0]
    first = start.a[0]
    vectors = [(lv, i) for lv, i in vals.items() if i[0] in (arg(1), arg(2))]
    if len(vectors) != 2:
        raise Und('vectors')
    for N in (6, 10, 14, 18):
        # moments n in [2, N) of the general form, and n in [2, N / 2] of the diagonal one, give all N of them
        want = list(range(2, N // 2 + 1 if diag else N))
        got = []
        n = first
        for _ in range(40):
            stop = None
            for opt, cut in ((False, (3, 3)), (True, (0, 0)), (True, (0, 1)), (True, (1, 2)), (True, (2, 2)), (True, (2, 1)), (True, (1, 0)), (True, (3, 3))):
                G = Ghost(g, w, top, n, N, opt, {n: cut[0], n + 1: cut[1]})
                G.num[n_lv] = n
                for lv, i in vectors:
                    G.val[lv] = [(0 if i[0] is arg(1) else 1) + n - first] * G.S
                try:
                    G.run(diag)
                except Und as e:
                    if str(e) == 'exit':
                        stop = True
                        break
                    raise
                done = len(G.seen)
                m = n
                for s in G.seen:
                    if s[0] != m:
                        raise Bad('moment %s is collected in place of %s' % (s[0], m))
                    last = cut[m - n] if m - n < 2 else 3
                    rows = list(range(last + 1))
                    if diag:
                        for v, o in zip(s[1:], ((m - 1, m - 1), (m, m - 1))):
                            if not isinstance(v, tuple) or sorted(v) != [(r,) + o for r in rows]:
                                raise Bad('moment %s is collected from products over %s' % (m, list(v)[:4]))
                    elif s[1][:last + 1] != [m] * (last + 1):
                        raise Bad('moment %s is collected from a vector of orders %s' % (m, s[1][:last + 1]))
                    m += 1
                k = G.scalar(nxt)
                if k != n + done:
                    raise Bad('%d moments are collected and the count moves on by %d' % (done, k - n))
                for lv, i in vectors:
                    try:
                        v = G.vector(i[1])
                    except Und:
                        raise
                    o = (0 if i[0] is arg(1) else 1) + k - first
                    keep = min(cut[:done]) + 1
                    if v[:keep] != [o] * keep:
                        raise Bad('the next pass starts from a vector of orders %s, not %d' % (v[:keep], o))
            if stop:
                break
            got += list(range(n, n + done))
            n += done
        else:
            raise Und('the loop does not end')
        if got != want:
            raise Bad('of %d moments the loop computes %s' % (N, got[:6]))


# ---------------------------------------------------------------------------------------------- pipeline
KPM = 'cpb::kpm::'
STAGES = [KPM + x for x in ('apply_damping', 'reconstruct', 'Bounds::scaling_factors', 'OptimizedHamiltonian::optimize_for', 'Stats::reset',
                            'random_starter', 'unit_starter', 'constant_starter', 'velocity', 'extract_data', 'round_num_moments',
                            'MomentMultiplication::matrix_mul_add', 'MomentMultiplication::normalize', 'Bounds::linspaced', 'Compute::Interface::moments')]


def stage(n):
    fn = str(n.d.get('fn'))
    return fn[len(KPM):] if n.kind == 'call' and fn in STAGES else None


def sequences(g):
    """the orders in which the stages can run, every loop entered once or not at all"""
    out, memo = set(), {}
    start = [n for n in g.nodes if n.kind == 'entry'][0]
    stack = [(start, (), frozenset())]
    seen = set()
    while stack:
        n, seq, heads = stack.pop()
        if (n.id, seq, heads) in seen:
            continue
        seen.add((n.id, seq, heads))
        if len(seen) > 20000:
            raise Und('paths')
        if stage(n) and stage(n) != 'Stats::reset':
            seq = seq + (n,)
        if n.kind == 'exit':
            out.add(seq)
        if n.kind == 'loop':
            if n.id in heads:
                # second arrival: leave the loop
                heads = heads | {-n.id}
            heads = heads | {n.id}
        for m, _ in n.succ:
            if m.kind == 'loop' and -m.id in heads:
                continue
            stack.append((m, seq, heads))
    return out


def within(t, pred):
    return isinstance(t, T) and any(pred(x) for x in subterms(t))


def is_scaling(t):
    return t.op == 'call' and str(t.a[0]).endswith('Bounds::scaling_factors') and root_of(t.a[1]) is THIS or \
        t.op == 'call' and str(t.a[0]).endswith('Bounds::scaling_factors') and within(t.a[1], lambda x: field(x, 'bounds'))


APIS = {  # name: (optimal size allowed, starters, energies, broadening, reconstruction)
    'moments': (False, ('constant_starter',), None, None, None),
    'ldos': (True, ('unit_starter',), 1, 2, 'SpectralDensity'),
    'dos': (False, ('random_starter',), 0, 1, 'SpectralDensity'),
    'greens_vector': (True, ('unit_starter',), 2, 3, 'GreensFunction'),
    'conductivity': (False, ('random_starter', 'random_starter'), 2, 3, 'KuboBastin'),
}


def pipeline(P, R):
    for api, spec in APIS.items():
        fs = pick(P, KPM + 'Core::' + api)
        R.need(fs, 'Core::' + api)
        for f in fs:
            g, w = graph(P, f, STAGES)
            at = ['%s:%d' % (f.file, f.line)]
            try:
                seqs = sequences(g)
                R.count('pipelines')
                for seq in sorted(seqs, key=lambda q: [n.id for n in q]):
                    R.count('pipeline paths')
                    one_path(P, R, api, spec, g, w, seq)
            except Bad as e:
                R.bad('pipeline:%s' % api, 'Core::%s: %s' % (api, e), at)
            except Und as e:
                R.unknown('Core::%s: the pipeline (%s)' % (api, e))
            else:
                R.ok('Core::%s: optimize, compute, damp once, reconstruct with the same scale' % api)


def one_path(P, R, api, spec, g, w, seq):
    optimal, starters, energy, broad, rec = spec
    names = [stage(n) for n in seq]
    comp = [i for i, x in enumerate(names) if x == 'Compute::Interface::moments']
    opt = [i for i, x in enumerate(names) if x == 'OptimizedHamiltonian::optimize_for']
    damp = [i for i, x in enumerate(names) if x == 'apply_damping']
    last = [i for i, x in enumerate(names) if x in ('reconstruct', 'extract_data')]
    if api == 'conductivity' and not comp and 'MomentMultiplication::matrix_mul_add' not in names:
        return  # no random vectors at all
    if len(comp) != len(starters):
        raise Bad('%d expansions are computed' % len(comp)) if not comp else Und('expansions')
    if not opt or opt[-1] > comp[0]:
        raise Bad('the Hamiltonian is not optimized for the calculation before the expansion')
    if len(last) != 1:
        raise Und('result')
    if len(damp) != 1:
        raise Bad('the kernel is applied %d times to the moments' % len(damp))
    if not max(comp) < damp[0] < last[0]:
        raise Bad('the kernel is not applied between the expansion and the reconstruction')
    oh = seq[opt[-1]]
    if not is_scaling(oh.d['args'][1]):
        raise Bad('the Hamiltonian is scaled by something else than the bounds of its spectrum') if not within(oh.d['args'][1], is_scaling) else Und('scale')
    # what is computed
    objs = []
    for i, want in zip(comp, starters):
        a = seq[i].d['args']
        place = [x for x in subterms(a[0]) if x.op == 'addr']
        if len(place) != 1:
            raise Und('moments')
        objs.append(place[0].a[0])
        st = a[1]
        kinds = [x for x in subterms(st) if x.op == 'call' and str(x.a[0]).split('::')[-1].endswith('_starter')]
        if not kinds:
            raise Und('starter')
        if any(not str(k.a[0]).endswith(want) for k in kinds):
            raise Bad('the expansion starts from a %s' % str(kinds[0].a[0]).split('::')[-1])
        for what, t in (('starting vector', kinds[0].a[1]), ('expansion', a[3])):
            if not within(t, lambda x: x.op == 'upd' and x.a[1] == 'optimize_for'):
                raise Bad('the %s uses the Hamiltonian from before it is optimized' % what) if within(t, lambda x: field(x, 'optimized_hamiltonian')) else Und(what)
        flag = FLD(a[2], 'optimal_size')
        if not optimal and not (is_const(flag) and not flag.a[0]):
            if within(flag, lambda x: field(x, 'algorithm')) or is_const(flag):
                raise Bad('the size optimization is not disabled, although every site takes part')
            raise Und('algorithm')
    if len(set(objs)) != len(objs):
        raise Bad('both expansions are written to the same moments')
    # the object which is damped is the one which was computed and is reconstructed
    dn, ln = seq[damp[0]], seq[last[0]]
    dp = dn.d['argplaces'][0]
    if api != 'conductivity' and dp is not objs[0]:
        raise Bad('the kernel is applied to other moments than those computed') if dp is not None and dp.op == 'root' else Und('moments')
    if not within(ln.d['args'][0], lambda x: x.op == 'upd' and str(x.a[1]).endswith('apply_damping')):
        raise Bad('the result is taken from moments to which the kernel is not applied')
    if not within(dn.d['args'][1], lambda x: field(x, 'kernel')):
        raise Und('kernel')
    # number of moments
    inits = {}
    for n in g.nodes:
        if n.kind in ('init', 'write') and isinstance(n.d.get('place'), T) and isinstance(n.d.get('value'), T):
            inits.setdefault(n.d['place'], []).append(n.d['value'])

    def value(p):
        v = inits.get(p, [])
        if len(v) != 1 or v[0].op != 'obj':
            raise Und('moments object')
        return v[0]
    for p in objs:
        m = FLD(value(p), 'num_moments')
        if rec is None:
            if not (m.op == 'call' and str(m.a[0]).endswith('round_num_moments') and m.a[-1] is arg(0)):
                raise Und('number of moments') if within(m, lambda x: x is arg(0)) else Bad('the number of moments is not the one asked for')
            continue
        sized(m, broad)
    if rec is None:
        if ln.d['args'][1] is not arg(0):
            raise Bad('another number of moments is returned')
        kind = value(objs[0]).a[0]
        return
    if names[last[0]] != 'reconstruct':
        raise Bad('the moments are not reconstructed')
    made = ln.d['decl'].id
    if ('%d%s' % (len(rec), rec)) not in made:
        raise Bad('the moments are not reconstructed as %s' % rec)
    args = ln.d['args']
    if args[1] is not arg(energy):
        raise Bad('the result is reconstructed at other energies') if not within(args[1], lambda x: x is arg(energy)) else Und('energies')
    if not is_scaling(args[-1]):
        raise Bad('the result is reconstructed with another scale') if not within(args[-1], is_scaling) else Und('scale')
    idx = oh.d['args'][0]
    if api in ('ldos', 'greens_vector'):
        for side, k in (('src', 0), ('dest', 0 if api == 'ldos' else 1)):
            t = FLD(idx, side)
            hit = {j for x in subterms(t) for j in range(6) if x is arg(j)}
            if hit != {k}:
                raise Bad('the %s indices are not those asked for' % ('source' if side == 'src' else 'destination')) if hit else Und('indices')
    if api in ('ldos', 'dos'):
        v = value(objs[0])
        nv = FLD(v, 'num_vectors')
        if api == 'dos' and nv is not arg(2) or api == 'ldos' and not (nv.op == 'size' and root_of(nv.a[0]) is arg(0)):
            raise Bad('the number of vectors is not the one asked for') if not within(nv, lambda x: x in (arg(0), arg(2))) else Und('vectors')
        col = FLD(v, 'collect')
        kind = {k for k in ('BatchConcatenator', 'BatchAccumulator') if k in show(col, 9)}
        want = 'BatchConcatenator' if api == 'ldos' else 'BatchAccumulator'
        if kind != {want}:
            raise Bad('the moments of the vectors are combined by a %s' % sorted(kind)[0]) if kind else Und('collector')
    if api == 'conductivity':
        conductive(g, w, seq, names, comp, objs, value, args)


def trips(g, w, head, given):
    """how many times the body of a counted loop runs, the given terms having the given values"""
    body = body_of(g, head)
    out = [n for n in g.nodes if n.id in body and n.kind == 'branch' and any(m.id not in body for m, _ in n.succ)]
    cnt = [(lv, i) for lv, i in w.lvinfo.items() if lv.a[0] == head.lid and len(i) == 2 and lv in subterms(i[1])
           and not within(i[1], lambda x: x.op in ('upd', 'call'))]
    if len(out) != 1:
        raise Und('loop')
    used = [c for c in cnt if c[0] in subterms(out[0].d['cond'])]
    if len(used) != 1:
        raise Und('counter')
    lv, (first, nxt) = used[0]
    ev = lambda t, x: Interp(g, w, lambda u, I: x if u is lv else given.get(u)).ev(t)
    x, k = ev(first, None), 0
    while k < 50:
        v = bool(ev(out[0].d['cond'], x))
        if [m for m, l in out[0].succ if l is v][0].id not in body:
            return k
        k, x = k + 1, ev(nxt, x)
    raise Und('loop')


def sized(m, broad):
    """number of moments: required_num_moments(broadening / scale.a)"""
    calls = [x for x in subterms(m) if any(isinstance(y, T) and field(y, 'required_num_moments') for y in x.a)]
    if len(calls) != 1 or calls[0] is not m:
        raise Und('number of moments')

    def leaf(t, I):
        if t is arg(broad):
            return 0.37
        if t.op == 'fld' and is_scaling(t.a[0]):
            return {'a': 2.3, 'b': 0.9}.get(t.a[1])
        return None
    if abs(Interp(None, None, leaf).ev(m.a[-1]) - 0.37 / 2.3) > 1e-12:
        raise Bad('the number of moments is not that of the scaled broadening')


def conductive(g, w, seq, names, comp, objs, value, args):
    null = lambda t: within(t, lambda x: x.op == 'null') and not within(t, lambda x: x.op == 'call')
    vel = lambda t, k: t.op == 'call' and str(t.a[0]).endswith('kpm::velocity') and t.a[-1] is arg(k) and field(t.a[1], 'hamiltonian')
    mm = [n for n in seq if stage(n) == 'MomentMultiplication::matrix_mul_add']
    if len(mm) != 1:
        raise Bad('the product of the moments is accumulated %d times for a random vector' % len(mm))
    if seq.index(mm[0]) < max(comp):
        raise Bad('the product is taken before both expansions are computed')
    lr = [p for p in mm[0].d['argplaces'][:2]]
    if sorted(map(id, lr)) != sorted(map(id, objs)):
        raise Bad('the product is not that of the two expansions') if all(p in objs for p in lr) else Und('product')
    around = loops_of(g, mm[0])
    for n in [mm[0]] + [seq[i] for i in comp]:
        if [h.id for h in loops_of(g, n)] != [h.id for h in around]:
            raise Bad('the expansions and their product are not computed for each random vector')
    if len(around) != 1:
        raise Bad('the average is over a single random vector') if not around else Und('loops')
    for count in (2, 5):
        k = trips(g, w, around[0], {arg(5): count})
        if k != count:
            raise Bad('%d random vectors are used of %d' % (k, count))
    for p, k in zip(lr, (0, 1)):
        n = seq[comp[objs.index(p)]]
        st = [x for x in subterms(n.d['args'][1]) if x.op == 'call' and str(x.a[0]).endswith('random_starter')][0]
        at_start, at_end = st.a[2], FLD(value(p), 'op')
        want = (lambda t: vel(t, 0), null) if k == 0 else (null, lambda t: vel(t, 1))
        if want[0](at_start) and want[1](at_end):
            continue
        both = [at_start, at_end]
        if all(null(t) or vel(t, 0) or vel(t, 1) for t in both):
            raise Bad('the %s velocity operator is not applied where it belongs' % ('right' if k else 'left'))
        raise Und('operators')
    norm = [n for n in seq if stage(n) == 'MomentMultiplication::normalize']
    if len(norm) != 1 or norm[0].d['args'][0] is not arg(5) or seq.index(norm[0]) < seq.index(mm[0]):
        raise Bad('the moments are not averaged over the random vectors')
    if len({n.d['argplaces'][0] if stage(n) == 'apply_damping' else n.d['obj'] for n in seq if stage(n) in ('apply_damping', 'MomentMultiplication::normalize',
            'MomentMultiplication::matrix_mul_add')}) != 1:
        raise Und('moments')
    pts = args[2]
    if not (pts.op == 'call' and str(pts.a[0]).endswith('linspaced') and pts.a[-1] is arg(6)):
        raise Und('energy samples') if within(pts, lambda x: x is arg(6)) else Bad('the energies integrated over are not the given number of points over the spectrum')
    if args[3] is not arg(4):
        raise Bad('the temperature is not the one asked for')


# ---------------------------------------------------------------------------------------------- the pieces between the stages
def glue(P, R):
    kinds = 4
    for f in pick(P, KPM + 'MomentMultiplication::matrix_mul_add') + pick(P, KPM + 'MomentMultiplication::normalize'):
        g, w = graph(P, f)
        mul = f.qn.endswith('add') if hasattr(f, 'qn') else f.decl.qn.endswith('add')
        types = sorted({x.a[1] for n in g.nodes if n.kind == 'branch' and isinstance(n.d.get('cond'), T) for x in subterms(n.d['cond']) if x.op == 'altis'})
        for ty in types + ['the remaining type']:
            def attempt(rnd):
                real = 'complex' not in str(ty)
                a, b, c, k = mat(rnd, 3, 5, real), mat(rnd, 3, 5, real), mat(rnd, 3, 3, real), rnd.randint(2, 9)

                def leaf(t, I):
                    if t.op == 'altis':
                        return t.a[1] is ty or t.a[1] == ty
                    if t.op == 'alt':
                        r = root_of(t.a[0])
                        return c if r is THIS else a if r is arg(0) else b if r is arg(1) else None
                    if t.op == 'var':
                        return I.ev(t.a[1])
                    if t is arg(0):
                        return k
                    return None
                got = Interp(g, w, leaf).ev(outcome(g, mk('fld', THIS, 'data')))
                if mul:
                    return got, [A(3, 3, [x + y for x, y in zip(c.d, matmul(a, b.t.map(conj)).d)])]
                return got, [c.map(lambda x: x / k)]
            decide(R, f, '%s of %s' % ('accumulated product' if mul else 'average', ty), 'conductivity:%s' % ('accumulate' if mul else 'average'), attempt,
                   'the moment matrix is not increased by left * right^dagger' if mul else 'the moment matrix is not divided by the number of vectors')
    for f in pick(P, KPM + 'round_num_moments', 1):
        g, w = graph(P, f)

        def attempt(rnd):
            n = rnd.randint(-2, 60)
            r = Interp(g, w, lambda t, I: n if t is arg(0) else None).ev(ret(g))
            # both requirements of the expansion: enough moments, and a whole number of passes
            return (1 if r >= n and r >= 2 and (r - 2) % 4 == 0 else 0), [1]
        decide(R, f, 'rounded number of moments', 'moments:round', attempt, 'the rounded number of moments is too small or not 4k + 2', 40)
    for name, want in (('scaling_factors', None), ('linspaced', None), ('min_energy', None), ('max_energy', None)):
        for f in pick(P, KPM + 'Bounds::' + name):
            g, w = graph(P, f, [KPM + 'Bounds::compute_bounds', KPM + 'Scale::Scale'])
            R.count('bounds')

            def attempt(rnd):
                lo, hi = rnd.uniform(-5, 0), rnd.uniform(1, 5)

                def leaf(t, I):
                    if t.op == 'fld' and t.a[1] in ('min', 'max'):
                        b = t.a[0]
                        if not (b.op == 'upd' and b.a[1] == 'compute_bounds'):
                            raise Bad('a bound is used before it is computed') if b is THIS else Und('bounds')
                        return lo if t.a[1] == 'min' else hi
                    if t is arg(0):
                        return 5
                    return None
                t = ret(g)
                I = Interp(g, w, leaf)
                if name == 'scaling_factors':
                    if not (t.op == 'call' and str(t.a[0]).endswith('Scale::ctor')):
                        raise Und('scale')
                    return vec([I.ev(x) for x in t.a[1:3]]), [vec([lo, hi])]
                if name == 'linspaced':
                    return I.ev(t), [vec([lo + (hi - lo) * i / 4 for i in range(5)])]
                return I.ev(t), [lo if name == 'min_energy' else hi]
            try:
                decide(R, f, 'Bounds::' + name, 'bounds', attempt, 'the bounds of the spectrum are not passed on')
            except Bad as e:
                R.bad('bounds', 'Bounds::%s: %s' % (name, e), ['%s:%d' % (f.file, f.line)])
    for f in pick(P, KPM + 'ExtractData::operator()'):
        g, w = graph(P, f)

        def attempt(rnd):
            m = vec([cplx(rnd) for _ in range(7)])
            got = Interp(g, w, lambda t, I: m if t is arg(0) else 4 if t.op == 'fld' and t.a[0] is THIS else None).ev(ret(g))
            return got, [vec(m.d[:4])]
        decide(R, f, 'returned moments of %s' % ptype(f, 0), 'moments:extract', attempt, 'the moments returned are not the first ones')
    renewal(P, R)
    wrappers(P, R)


def renewal(P, R):
    """after another Hamiltonian is set, nothing of the previous one is left"""
    for cls, setter, deep in (('kpm::Core', 'set_hamiltonian', None), ('KPM', 'set_model', [KPM + 'Core::set_hamiltonian', KPM + 'Core::Core', 'cpb::Model::hamiltonian', 'cpb::Model::eval'])):
        ctors = [f for f in pick(P, 'cpb::%s::%s' % (cls, cls.split('::')[-1])) if len(f.decl.params) > 1]
        for f in pick(P, 'cpb::%s::%s' % (cls, setter)):
            g, w = graph(P, f, deep or ())
            renewed = {}
            for k, v in g.final_env.items():
                if root_of(k) is THIS:
                    top = k
                    while top.op != 'root' and top.a[0] is not THIS:
                        top = top.a[0]
                    renewed.setdefault(top.a[1] if top.op == 'fld' else None, []).append(v)
            for c in ctors:
                gc, wc = graph(P, c, deep or ())
                derived = set()
                for k, v in gc.final_env.items():
                    if root_of(k) is THIS and isinstance(v, T) and (v is arg(0) or within(v, lambda x: x is arg(0))):
                        top = k
                        while top.op != 'root' and top.a[0] is not THIS:
                            top = top.a[0]
                        if top.op == 'fld':
                            derived.add(top.a[1])
                for d in sorted(derived):
                    R.count('fields derived from the model')
                    vs = renewed.get(d)
                    lab = '%s::%s renews %s' % (cls.split('::')[-1], setter, d)
                    if vs and all(within(v, lambda x: x is arg(0)) or v is arg(0) for v in vs if isinstance(v, T)):
                        R.ok(lab)
                    elif not vs and None not in renewed:
                        R.bad('renew:%s' % d, '%s::%s leaves %s as it was for the previous Hamiltonian' % (cls, setter, d), ['%s:%d' % (f.file, f.line)])
                    elif vs and any(isinstance(v, T) and within(v, lambda x: x.op == 'fld' and x.a[0] is THIS and x.a[1] in derived) and not within(v, lambda x: x is arg(0)) for v in vs):
                        R.bad('renew:%s' % d, '%s::%s computes %s from the previous Hamiltonian' % (cls, setter, d), ['%s:%d' % (f.file, f.line)])
                    else:
                        R.unknown(lab)


FORWARD = {  # KPM member: (core member, its arguments)
    'moments': ('moments', (0, 1, 2, 3)),
    'calc_dos': ('dos', (0, 1, 2)),
    'calc_greens': ('greens', (0, 1, 2, 3)),
    'calc_greens_vector': ('greens_vector', (0, 1, 2, 3)),
    'calc_ldos': ('ldos', ('sites', 0, 1)),
    'calc_spatial_ldos': ('ldos', ('shape', 0, 1)),
    'calc_conductivity': ('conductivity', ('axis0', 'axis1', 0, 1, 2, 4, 5)),
}


def wrappers(P, R):
    core = [KPM + 'Core::' + x for x in ('moments', 'ldos', 'dos', 'greens', 'greens_vector', 'conductivity')]
    opq = core + ['cpb::System::' + x for x in ('find_nearest', 'to_hamiltonian_indices', 'expanded_positions', 'sublattice_range')] + ['cpb::Shape::contains', 'cpb::Model::system', 'cpb::Model::hamiltonian']
    for name, (target, want) in FORWARD.items():
        for f in pick(P, 'cpb::KPM::' + name):
            g, w = graph(P, f, opq)
            R.count('calculations')
            lab = 'KPM::%s' % name
            at = ['%s:%d' % (f.file, f.line)]
            try:
                calls = [n for n in g.nodes if n.kind == 'call' and n.d.get('fn') in core]
                if len(calls) != 1:
                    raise Und('calls')
                if calls[0].d['fn'] != KPM + 'Core::' + target:
                    raise Bad('computes %s' % calls[0].d['fn'])
                got = calls[0].d['args']
                for k, (x, t) in enumerate(zip(want, got)):
                    forwarded(g, w, x, t, k)
                result(name, ret(g))
            except Bad as e:
                R.bad('calculation:%s' % name, '%s: %s' % (lab, e), at)
            except Und as e:
                R.unknown('%s: %s' % (lab, e))
            else:
                R.ok('%s passes its arguments on and returns the result' % lab)


def forwarded(g, w, x, t, k):
    args = {id(arg(j)): j for j in range(8)}
    inside = {args[id(y)] for y in subterms(t) if id(y) in args}
    if isinstance(x, int):
        while t.op in ('call', 'var') and len([y for y in t.a if isinstance(y, T)]) == 1:
            t = [y for y in t.a if isinstance(y, T)][0]
        if t is not arg(x):
            raise Bad('argument %d of the calculation is not parameter %d' % (k, x)) if x not in inside else Und('argument %d' % k)
    elif x == 'sites':
        near = [y for y in subterms(t) if y.op == 'call' and str(y.a[0]).endswith('find_nearest')]
        if not near:
            raise Und('site')
        if near[0].a[-2:] != (arg(2), arg(3)) and tuple(near[0].a[-2:]) != (arg(2), arg(3)):
            raise Und('site') if {2, 3} <= inside else Bad('the site is not the nearest one of the given sublattice')
        ham = [y for y in subterms(t) if y.op == 'call' and str(y.a[0]).endswith('to_hamiltonian_indices')]
        if not ham:
            raise Bad('the site index is used as an index into the Hamiltonian')
        if ham[0].a[-1] is not near[0]:
            raise Und('indices')
    elif x == 'shape':
        inside = [True, True, True, True, False, False, True, True]

        def leaf(y, I):
            if any(isinstance(z, T) and field(z, 'contains') and root_of(z) is arg(2) for z in y.a):
                for z in subterms(y):
                    if z.op == 'obj':
                        for k, v in z.a[1:]:
                            if str(k) in ('x_ref', 'y_ref', 'z_ref') and not within(v, lambda u: field(u, str(k)[0]) and field(u.a[0], 'positions')):
                                raise Bad('the shape is asked about other coordinates')
                return Lst(inside)
            if field(y, 'start', 'end') and y.a[0].op == 'call' and str(y.a[0].a[0]).endswith('sublattice_range'):
                if y.a[0].a[-1] is not arg(3):
                    raise Bad('the sites are those of another sublattice')
                return {'start': 2, 'end': 7}[y.a[1]]
            return None
        got = Interp(g, w, leaf).ev(t)
        if not isinstance(got, list) and not isinstance(got, A):
            raise Und('sites')
        got = list(got.d if isinstance(got, A) else got)
        if got != [2, 3, 6]:
            raise Bad('of the sites 2 to 6, with 2, 3 and 6 inside the shape, the density is computed for %s' % got)
    else:
        axis = int(x[-1])
        els = [y for y in subterms(t) if y.op == 'elem' and y.a[0] is arg(3)]
        if len(els) != 1 or not is_const(els[0].a[1]):
            raise Und('direction')
        if els[0].a[1].a[0] != axis:
            raise Bad('velocity %d is taken along direction[%s]' % (axis, els[0].a[1].a[0]))
        pairs = [y for y in subterms(t) if y.op == 'list']
        if len(pairs) != 1:
            raise Und('axes')
        for p in pairs[0].a:
            c, v = FLD(p, 'first'), FLD(p, 'second')
            if not is_const(c) or v.op != 'addr' or v.a[0].op != 'fld':
                raise Und('axes')
            if chr(c.a[0]) != v.a[0].a[1]:
                raise Bad("direction '%s' is the %s coordinate" % (chr(c.a[0]), v.a[0].a[1]))


def result(name, t):
    """what is returned of the result of the calculation"""
    core = [y for y in subterms(t) if y.op == 'call' and 'Core::' in str(y.a[0])]
    if len(core) != 1:
        raise Und('result')
    core = core[0]
    v = A(2, 3, [1 + 2j, 3 + 1j, 5 + 4j, 7 + 3j, 11 + 6j, 13 + 2j])
    real = A(2, 3, [x.real for x in v.d])

    def value(flag, data):
        def leaf(x, I):
            if x is core:
                return data
            if x is arg(4):
                return flag
            if x.op == 'call' and str(x.a[0]).endswith('::ctor') and len(x.a) > 1 and 'Array' in str(x.a[0]):
                return I.ev(x.a[1])
            return None
        return Interp(None, None, leaf).ev(t)
    if name == 'calc_conductivity':
        want, got = [real], value(False, v)
        if not same(got, real):
            raise Bad('the conductivity is not the real part of the result')
    elif name == 'calc_ldos':
        rows = vec([sum(real.d[:3]), sum(real.d[3:])])
        if not same(value(False, real), real):
            raise Bad('the unreduced density of the orbitals is not returned as it is')
        got = value(True, real)
        if not same(vec(got.d), rows):
            raise Bad('the reduced density is not the sum over the orbitals')
    elif not same(value(False, v), v):
        raise Bad('the result is changed')


# ---------------------------------------------------------------------------------------------- batches
def batches(P, R):
    """accumulated batches give the average of the vectors asked for, concatenated ones keep each at its own index"""
    for cls in ('BatchAccumulator', 'BatchConcatenator'):
        fs = pick(P, 'cpb::kpm::%s::operator()' % cls)
        R.need(fs, 'cpb::kpm::%s::operator()' % cls)
        mean = cls == 'BatchAccumulator'
        for f in fs:
            g, w = graph(P, f)
            env = getattr(g, 'final_env', None)
            if env is None:
                R.unknown('%s: no normal return' % cls)
                continue
            out = env.get(arg(0))
            alts = sorted({x.a[1] for x in subterms(out) if x.op in ('altis', 'alt') and x.a[0] is arg(1)}) if out is not None else []
            if not alts:
                R.unknown('%s: result not understood' % cls)
                continue
            counters = [k for k in env if k.op == 'fld' and k.a[0] is THIS]
            for scalar in sorted({first_scalar(a) for a in alts}):
                one = [a for a in alts if first_scalar(a) == scalar and not is_two(a)]
                two = [a for a in alts if first_scalar(a) == scalar and is_two(a)]
                if len(one) != 1 or len(two) != 1:
                    R.unknown('%s: %s' % (cls, alts))
                    continue
                R.count('batch rules')

                def attempt(rnd, one=one[0], two=two[0], cplx='complex' in scalar):
                    num = rnd.randrange(1, 10)
                    width = rnd.choice((2, 4))
                    rows = 3
                    # batches first, the last of them may reach beyond the end; the remaining vectors one by one
                    whole, rest = divmod(num, width)
                    if rest and rnd.random() < 0.6:
                        whole, rest = whole + 1, 0
                    jobs = [(i * width, width) for i in range(whole)] + [(whole * width + i, 1) for i in range(rest)]
                    rnd.shuffle(jobs)

                    def value():
                        x = rnd.uniform(0.5, 2)
                        return complex(x, rnd.uniform(0.5, 2)) if cplx else x
                    state = {k: 0 for k in counters}
                    result = None
                    cols = {}
                    for idx, n in jobs:
                        d = [[value() for _ in range(n)] for _ in range(rows)]
                        for j in range(n):
                            cols[idx + j] = [d[i][j] for i in range(rows)]
                        data = A(rows, n, [d[i][j] for i in range(rows) for j in range(n)])
                        chosen = two if n > 1 else one

                        def leaf(t, I):
                            if t is arg(2):
                                return idx
                            if t is arg(3):
                                return num
                            if t in state:
                                return state[t]
                            if t.op == 'altis' and t.a[0] is arg(1):
                                return t.a[1] == chosen
                            if t.op == 'alt' and t.a[0] is arg(1):
                                return data
                            if t.op == 'alt' and t.a[0] is arg(0):
                                if result is None or result[0] != t.a[1]:
                                    raise Und('the previous result is of another type')
                                return result[1]
                            return None
                        v = out
                        I = Interp(g, w, leaf)
                        while v.op == 'sel':
                            v = v.a[1] if I.ev(v.a[0]) else v.a[2]
                        if v is arg(0):
                            if result is None:
                                raise Und('no result')
                            kind = result[0]
                        elif v.op == 'var':
                            kind = v.a[0]
                        else:
                            raise Und('result')
                        new = I.ev(outcome(g, mk('alt', arg(0), kind)))
                        nstate = {k: I.ev(env[k]) for k in counters}
                        result, state = (kind, new), nstate
                    if mean:
                        return result[1], [vec([sum(cols[k][i] for k in range(num)) / num for i in range(rows)])]
                    return result[1], [A(rows, num, [cols[k][i] for i in range(rows) for k in range(num)])]
                decide(R, f, '%s: %s' % (cls, scalar), 'batches:' + cls, attempt,
                       'the result is not the average of the vectors asked for' if mean else 'the vectors are not stored at their own indices', 40)
        # the batch itself hands on what it gets
    for f in pick(P, 'cpb::kpm::BatchDiagonalMoments::add'):
        g, w = graph(P, f)
        calls = [n for n in g.nodes if n.kind == 'usercall' and len(n.d['args']) == 4 and any(a is arg(0) for a in n.d['args'])]
        if len(calls) != 1:
            R.unknown('BatchDiagonalMoments::add')
            continue
        place = list(calls[0].d['argplaces'])[0]
        _, new, idx, num = calls[0].d['args']
        R.count('batch rules')
        if idx is not arg(1) and not contains(idx, lambda y: y.op in ('lv', 'call', 'phi')):
            R.bad('batches:add', 'the new moments are stored at index %s instead of their own' % show(idx)[:60], [calls[0].where()])
        elif not (isinstance(num, T) and num.op == 'fld' and num.a[0] is THIS and num.a[1] == 'num_vectors'):
            R.unknown('BatchDiagonalMoments::add: number of vectors %s' % show(num)[:60])
        elif new is not arg(0) or not (isinstance(place, T) and place.op == 'fld' and place.a[0] is THIS):
            R.unknown('BatchDiagonalMoments::add: arguments')
        else:
            R.ok('BatchDiagonalMoments::add: hands on data, index and the number of vectors')


def first_scalar(t):
    i = t.find('<')
    depth, j = 0, i + 1
    while j < len(t):
        if t[j] == '<':
            depth += 1
        elif t[j] == '>':
            depth -= 1
        elif t[j] == ',' and depth == 0:
            break
        j += 1
    return t[i + 1:j].strip()


PARTS = [reconstruct, kernels, apply_kernel, collectors, chebyshev, starters, algebra, recurrence, pipeline, glue, batches]
