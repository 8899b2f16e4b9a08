"""Models of the external (std / Eigen / mapbox / fmt) functions the repository calls."""
from terms import *
import walk as W
from prog import strip_targs


def pure(w, d, obj, args, name=None):
    vs = ([w.val(obj)] if obj is not None else []) + [w.val(a) for a in args]
    return (False, mk('call', name or d.qn, *vs))


def endpos(C):
    return mk('endpos')


def loop_over(w, it, body, lastlabel='more', last=None):
    """iterate from iterator/pointer value `it`; body(elem place) evaluated on self.st"""
    lid = [None]

    def cond():
        w.uid += 1
        return w.branch(mk('more', w.uid))
    state = {}

    def run_body():
        w.uid += 1
        idx = mk('lv', w.uid, mk('root', 'iterpos', 0, ''))
        if last is not None and not w.dry:
            w.ranges[w.loops_open[-1]] = (idx, it, last)
        el = elem_at(w, it, idx)
        body(el, idx)
    w.loop(cond, run_body)


def elem_at(w, it, idx):
    if it.op == 'iter':
        return ELEM(it.a[0], idx)
    if it.op == 'addr' and it.a[0].op == 'elem':
        return ELEM(it.a[0].a[0], idx)
    if it.op == 'addr':
        return ELEM(it.a[0], idx)
    if it.op in ('phi', 'sel'):
        return ELEM(mk('deref', it), idx)
    return ELEM(mk('deref', it), idx)


def container_of(it):
    if it.op == 'iter':
        return it.a[0]
    if it.op == 'addr' and it.a[0].op == 'elem':
        return it.a[0].a[0]
    if it.op == 'addr':
        return it.a[0]
    if it.op == 'backins':
        return it.a[0]
    return None


def call_fn(w, f, fexpr_t, args, split=False):
    """invoke callable R f on argument Rs -> list of (state,R)"""
    r = w.invoke(f, args, split)
    if r is not None:
        return r
    # functor object: find operator() of its class
    t = fexpr_t.strip_ref() if fexpr_t is not None else None
    if t is not None and t.rid in w.P.recs:
        R = w.P.recs[t.rid]
        for m in R.methods:
            if m['n'] == 'operator()' and m['id'] in w.P.fns:
                fn = w.P.fns[m['id']]
                if len(fn.p) == len(args) and w.can_inline(fn):
                    return w.inline(fn, w.as_place(f), args, {}, split=split)
                if len(fn.p) == len(args) and fn.qn in w.throwing:
                    w.maybe_throw(fn.qn)
    v = w.val(f)
    return w.one((False, mk('call', '<callable>', v, *[w.val(a) for a in args])))


def algorithm(w, d, name, e, args, split):
    ts = [w.ety(a) for a in e['a']]
    vs = None
    if name in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if') and len(args) == 3:
        it = w.val(args[0])
        predt = ts[2]
        found = []
        info = {}

        def body(el, idx):
            outs = call_fn(w, args[2], predt, [(True, el)], split=True)
            ts_, fs_ = [], []
            for s, r in outs:
                w.st, w.dead = s, False
                v = w.truth(w.val(r), None)
                info['pred'] = v
                a, b = w.branch(v)
                if name in ('all_of', 'find_if_not'):
                    a, b = b, a
                if a is not None:
                    ts_.append(a)
                if b is not None:
                    fs_.append(b)
            if name == 'count_if':
                w.resume(ts_ + fs_)
                return
            for s in ts_:
                if not w.dry:
                    found.append(s)
            w.resume(fs_)
        loop_over(w, it, body)
        C = container_of(it)
        pred = info.get('pred', UNK)
        pred = abstract_idx(pred)
        cont = w.read(C) if C is not None and C.op in PLACE_OPS else it
        if name == 'count_if':
            return w.one((False, mk('call', 'count_if', cont, pred)))
        rest = w.st if not w.dead else None
        if name in ('find_if', 'find_if_not'):
            sts = found + ([rest] if rest is not None else [])
            w.resume(sts)
            if C is None:
                return w.one((False, mk('call', name, it, pred)))
            return w.one((False, mk('iter', C, mk('findpos', pred if name == 'find_if' else NOT(pred)))))
        tv, fv = (FALSE, TRUE) if name in ('all_of', 'none_of') else (TRUE, FALSE)
        if split:
            outs = []
            if found:
                s = w.join(found)[0]
                outs.append((s, (False, tv)))
            if rest is not None:
                outs.append((rest, (False, fv)))
            # path markers keep the two outcomes apart without claiming a value
            return outs
        sts = found + ([rest] if rest is not None else [])
        w.resume(sts)
        anyt = mk('anyof', cont, pred if name != 'all_of' else NOT(pred))
        v = NOT(anyt) if name in ('all_of', 'none_of') else anyt
        return w.one((False, v))
    if name == 'for_each' and len(args) == 3:
        it = w.val(args[0])

        def body(el, idx):
            outs = call_fn(w, args[2], ts[2], [(True, el)])
            w.resume([s for s, _ in outs])
        loop_over(w, it, body, last=w.val(args[1]))
        return w.one((False, w.val(args[2])))
    if name in ('transform', 'copy_if') and len(args) >= 4:
        it = w.val(args[0])
        two = len(args) == 5
        it2 = w.val(args[2]) if two else None
        outit = w.val(args[3] if two else args[2])
        f = args[-1]

        def body(el, idx):
            a = [(True, el)]
            if two:
                a.append((True, elem_at(w, it2, idx)))
            outs = call_fn(w, f, ts[-1], a, split=(name == 'copy_if'))
            if name == 'copy_if':
                ts_, fs_ = [], []
                for s, r in outs:
                    w.st, w.dead = s, False
                    x, y = w.branch(w.truth(w.val(r), None))
                    ts_.append(x)
                    fs_.append(y)
                w.resume(ts_)
                if not w.dead:
                    emit(w, outit, w.read(el), idx)
                    fs_.append(w.st)
                w.resume(fs_)
                return
            if not outs:
                w.kill_state()
                return
            if len(outs) == 1:
                w.st, w.dead = outs[0][0], False
                r = outs[0][1]
            else:
                r = w.merge_outs(outs)
            emit(w, outit, w.val(r), idx)
        loop_over(w, it, body, last=w.val(args[1]))
        return w.one((False, outit))
    if name == 'copy' and len(args) == 3:
        C = container_of(w.val(args[0]))
        O = container_of(w.val(args[2]))
        src = w.read(C) if C is not None else w.val(args[0])
        if O is not None:
            w.mut(O, 'copy', (src, w.val(args[0]), w.val(args[1]), w.val(args[2])))
        return w.one((False, mk('call', 'std::copy', src, w.val(args[2]))))
    if name in ('accumulate',):
        C = container_of(w.val(args[0]))
        src = w.read(C) if C is not None else w.val(args[0])
        fv = UNK if len(args) == 4 else mk('plus')
        if len(args) == 4:
            init = w.val(args[2])
            info = {}
            acc = w.newroot('tmp', 'acc')
            w.setval(acc, init)

            def body(el, idx):
                outs = call_fn(w, args[3], ts[3], [(True, acc), (True, el)])
                if not outs:
                    w.kill_state()
                    return
                if len(outs) == 1:
                    w.st, w.dead = outs[0][0], False
                    r = outs[0][1]
                else:
                    r = w.merge_outs(outs)
                info['v'] = w.val(r)
                w.setval(acc, w.val(r))
            loop_over(w, w.val(args[0]), body)
            fv = abstract_idx(info.get('v', UNK))
        return w.one((False, mk('call', 'std::accumulate', src, w.val(args[2]), fv, w.val(args[0]), w.val(args[1]))))
    if name in ('sort', 'stable_sort', 'remove_if', 'unique', 'partition', 'stable_partition', 'reverse', 'rotate',
                'fill', 'iota', 'generate', 'partial_sort', 'nth_element', 'remove', 'replace', 'replace_if',
                'fill_n', 'generate_n'):
        it = w.val(args[0])
        C = container_of(it)
        cmpterm = UNK
        last = ts[-1].strip_ref() if ts and ts[-1] is not None else None
        if last is not None and last.k == 'rec' and ('lambda' in last.s or last.short not in W.CONTAINERS) \
                and w.val(args[-1]) in w.clos:
            fid = w.clos[w.val(args[-1])][0]
            fn = w.P.fns.get(fid)
            info = {}
            if fn is not None:
                def body(el, idx):
                    aa = [(True, elem_at(w, it, mk('lv', w.uid + k, mk('root', 'iterpos', 0, '')))) for k in range(len(fn.p))]
                    w.uid += len(fn.p)
                    outs = call_fn(w, args[-1], ts[-1], aa)
                    if outs:
                        r = outs[0][1] if len(outs) == 1 else None
                        w.resume([s for s, _ in outs])
                        if r is not None:
                            info['v'] = w.val(r)
                            if name in ('generate', 'generate_n'):
                                emit(w, it, w.val(r), idx)
                loop_over(w, it, body)
                cmpterm = abstract_idx(info.get('v', UNK), name in ('sort', 'stable_sort', 'partial_sort', 'nth_element'))
        if C is not None:
            w.mut(C, name, (cmpterm,) if cmpterm is not UNK else tuple(w.val(a) for a in args[1:]))
            if name in ('remove_if', 'unique', 'partition', 'stable_partition', 'remove'):
                return w.one((False, mk('iter', C, mk('call', name, cmpterm))))
        else:
            for x in subterms(it):
                if x.op == 'addr':
                    w.mut(x.a[0], name, ())
        return w.one((False, mk('call', 'std::' + name, it)))
    if name == 'find' and len(args) == 3:
        C = container_of(w.val(args[0]))
        if C is not None:
            return w.one((False, mk('iter', C, mk('findpos', EQ(mk('it'), w.val(args[2]))))))
    if name in ('min_element', 'max_element', 'lower_bound', 'upper_bound', 'adjacent_find') and args:
        C = container_of(w.val(args[0]))
        if C is not None:
            return w.one((False, mk('iter', C, mk('call', name, *[w.val(a) for a in args[2:]]))))
    # reading algorithms
    vs = []
    for a in args:
        v = w.val(a)
        C = container_of(v)
        vs.append(mk('range', w.read(C), v) if C is not None and C.op in PLACE_OPS else v)
    return w.one((False, mk('call', 'std::' + name, *vs)))


def emit(w, outit, v, idx):
    if outit.op == 'backins':
        w.mut(outit.a[0], 'push_back', (v,))
    else:
        w.write(elem_at(w, outit, idx), v)


def abstract_idx(t, two=False):
    """replace iteration positions by a bound variable so structurally equal predicates compare equal"""
    ids = sorted(set(x.a[0] for x in subterms(t) if x.op == 'lv' and x.a[1].op == 'root' and x.a[1].a[0] == 'iterpos')) if two else []

    def f(x):
        if x.op == 'lv' and x.a[1].op == 'root' and x.a[1].a[0] == 'iterpos':
            return mk('it2') if len(ids) == 2 and x.a[0] == ids[1] else mk('it')
        return None
    return subst(t, f)


def ext_call(w, d, e, obj, split, dest):
    cls = d.cls or ''
    name = d.n
    qn = d.qn
    op = d.op
    line = e.get('l', w.curline)

    # std::function call: user code
    if cls == 'std::function' and op == '()':
        args = [w.E(a) for a in e['a']]
        if w.dead:
            return []
        w.curline = line
        v = w.val(obj)
        if v in w.clos:
            return w.call_clos(v, args, e, split)
        ft = d.params
        return w.usercall(v, args, [w.ety(a) for a in e['a']], ft)

    if qn == 'mapbox::util::apply_visitor':
        f = w.E(e['a'][0])
        var = w.E(e['a'][1])
        if w.dead:
            return []
        w.curline = line
        ft = w.ety(e['a'][0])
        vt = w.ety(e['a'][1]).strip_ref()
        if len(e['a']) > 2:
            var2 = w.E(e['a'][2])
            return w.one((False, mk('call', qn, w.val(f), w.val(var), w.val(var2))))
        return w.visit(var, vt, lambda at, ar: visitor_call(w, f, ft, at, ar, split))
    if cls == 'mapbox::util::variant' and name == 'match':
        fs = [w.E(a) for a in e['a']]
        fts = [w.ety(a) for a in e['a']]
        if w.dead:
            return []
        w.curline = line
        ot = w.ety(e['o']).strip_ref()
        if ot.k == 'ptr':
            ot = ot.to

        def ca(at, ar):
            for f, ft in zip(fs, fts):
                v = w.val(f)
                if v in w.clos:
                    fn = w.P.fns.get(w.clos[v][0])
                    if fn is None:
                        continue
                    pt = w.P.types.get((fn.tag, fn.p[0]['t'])) if fn.p else None
                    if pt is not None and pt.strip_ref().s.replace('const ', '') == at.s.replace('const ', ''):
                        return call_fn(w, f, ft, [ar], split)
            if len(fs) == 1:
                return call_fn(w, fs[0], fts[0], [ar], split)
            return w.one((False, w.fresh('match')))
        return w.visit(obj, ot, ca)
    if qn in ('mapbox::util::get',) or (cls == 'mapbox::util::variant' and name in ('get', 'get_unchecked')):
        if obj is None:
            var = w.E(e['a'][0])
        else:
            var = obj
        if w.dead:
            return []
        t = d.ret.strip_ref()
        if t.k == 'ptr':
            t = t.to
        v = w.val(var)
        if var[0] and var[1].op in ('root', 'fld', 'elem', 'sub', 'deref', 'alt'):
            return w.one((True, mk('alt', var[1], t.s.replace('const ', ''))))
        return w.one((False, w.alt_of(v, t.s.replace('const ', ''))))
    if cls == 'mapbox::util::variant' and name == 'is':
        t = d.targs[0] if d.targs else None
        return w.one((False, w.is_alt(w.val(obj), t.s if t is not None else "?")))

    # smart pointers
    if any(cls.startswith(s) for s in W.SMART):
        args = [w.E(a) for a in e['a']]
        if w.dead:
            return []
        w.curline = line
        if op == '*':
            return w.one((True, DEREF(w.val(obj))))
        if op == '->' or name == 'get':
            return w.one((False, w.val(obj)))
        if name.startswith('operator bool'):
            return w.one((False, NOT(EQ(w.val(obj), NULL))))
        if name == 'reset':
            w.write(w.as_place(obj), w.val(args[0]) if args else NULL, 'reset')
            return w.one((False, VOID))
        if op == '=':
            w.write(w.as_place(obj), w.val(args[0]))
            return w.one(obj)
        if name == 'swap':
            a, b = w.as_place(obj), w.as_place(args[0])
            x, y = w.read(a), w.read(b)
            w.write(a, y, 'swap')
            w.write(b, x, 'swap')
            return w.one((False, VOID))
        if name == 'release':
            v = w.val(obj)
            w.write(w.as_place(obj), NULL, 'release')
            return w.one((False, v))
        return w.one(pure(w, d, obj, args))
    if qn in ('std::make_shared', 'std::make_unique', 'std::allocate_shared'):
        t = d.ret.strip_ref()
        el = t.targs[0] if t.targs else None
        h = w.newroot('heap', el.s if el is not None else '')
        args = [w.E(a) for a in e['a']]
        if w.dead:
            return []
        w.curline = line
        rec = w.P.recs.get(el.rid) if el is not None and el.rid else None
        done = False
        if rec is not None and rec.repo:
            done = construct(w, rec, h, args, [w.ety(a) for a in e['a']])
        elif len(args) == 1:
            w.setval(h, w.val(args[0]))
            done = True
        if not done:
            w.setval(h, mk('call', (el.short or el.s if el else '?') + '::ctor', *[w.val(a) for a in args]))
        return w.one((False, mk('addr', h)))

    # identity / forwarding
    if qn in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const', 'std::const_pointer_cast',
              'std::static_pointer_cast', 'std::move_if_noexcept') and len(e['a']) == 1:
        r = w.E(e['a'][0])
        return w.one(r)
    if qn == 'std::addressof':
        return w.one((False, ADDR(w.pl(e['a'][0]))))
    if qn == 'std::back_inserter':
        return w.one((False, mk('backins', w.pl(e['a'][0]))))
    if qn in ('std::begin', 'std::cbegin', 'std::end', 'std::cend') and len(e['a']) == 1:
        p = w.pl(e['a'][0])
        return w.one((False, mk('iter', p, cint(0) if 'begin' in qn else endpos(p))))
    if qn in ('std::distance', 'std::next', 'std::prev', 'std::advance'):
        args = [w.E(a) for a in e['a']]
        vs = [w.val(a) for a in args]
        if qn == 'std::distance':
            return w.one((False, w.binop('-', vs[1], vs[0])))
        if qn == 'std::advance':
            w.write(args[0][1], w.binop('+', vs[0], vs[1]))
            return w.one((False, VOID))
        n = vs[1] if len(vs) > 1 else cint(1)
        return w.one((False, w.binop('+' if qn == 'std::next' else '-', vs[0], n)))
    if qn == 'std::swap' and len(e['a']) == 2:
        a, b = w.pl(e['a'][0]), w.pl(e['a'][1])
        if w.dead:
            return []
        w.curline = line
        x, y = w.read(a), w.read(b)
        w.write(a, y, 'swap')
        w.write(b, x, 'swap')
        return w.one((False, VOID))
    if qn in ('std::tie', 'std::forward_as_tuple'):
        ps = [w.pl(a) for a in e['a']]
        return w.one((False, mk('tie', *[mk('addr', p) for p in ps])))
    if qn in ('std::make_pair', 'std::make_tuple'):
        vs = [w.rv(a) for a in e['a']]
        if qn == 'std::make_pair':
            return w.one((False, mk('obj', mk('call', 'std::pair'), ('first', vs[0]), ('second', vs[1]))))
        return w.one((False, mk('obj', mk('call', 'std::tuple'), *[('%d' % i, v) for i, v in enumerate(vs)])))
    if qn == 'std::get':
        r = w.E(e['a'][0])
        return w.one((r[0], mk('fld', r[1], 'get:' + d.ret.s)) if r[0] else (False, FLD(r[1], 'get')))

    if d.cls is None and (qn.startswith('std::') and name in W.ALGOS):
        args = [w.E(a) for a in e['a']]
        if w.dead:
            return []
        w.curline = line
        return algorithm(w, d, name, e, args, split)

    args = [w.E(a) for a in e['a']]
    if w.dead:
        return []
    w.curline = line
    argv = None

    # iterators
    if any(cls.startswith(s) for s in W.ITER_PREFIX):
        v = w.val(obj)
        if op == '*' and not args:
            return w.one((True, DEREF(v)))
        if op == '->':
            return w.one((False, v))
        if op == '[]':
            return w.one((True, w.ptr_elem(v, w.val(args[0]))))
        if op in ('++', '--'):
            nv = w.ptr_add(v, cint(1 if op == '++' else -1)) or mk('op', op, v)
            if obj[0]:
                w.write(obj[1], nv, op)
            return w.one((False, v) if args else obj)
        if op in ('+', '-'):
            return w.one((False, w.binop(op, v, w.val(args[0]))))
        if op in ('+=', '-='):
            nv = w.binop(op[0], v, w.val(args[0]))
            w.write(obj[1], nv, op)
            return w.one(obj)
        if op == '=':
            w.write(obj[1], w.val(args[0]))
            return w.one(obj)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return w.one((False, w.binop(op, v, w.val(args[0]))))
        return w.one((False, v))
    # free operators
    if d.cls is None and op and len(args) == 2 and op in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '*', '/', '&&', '||'):
        vs = [w.val(a) for a in args]
        if op == '+' and ('basic_string' in (d.ret.s if d.ret else '')):
            return w.one((False, mk('op', '+', *vs)))
        return w.one((False, eigen_op(op, vs, d)))
    if d.cls is None and op in ('-',) and len(args) == 1:
        return w.one((False, NEG(w.val(args[0]))))
    if d.cls is None and op in ('<<', '>>') and len(args) == 2:
        w.escape_args(d, args)
        return w.one(args[0])

    # locks and threads
    if cls in W.LOCKS:
        p = w.as_place(obj)
        v = w.read(p)
        m = v.a[0] if v.op == 'lockobj' else UNK
        if name == 'unlock':
            w.node('unlock', mutex=m, implicit=False)
        elif name in ('lock',):
            w.node('lock', mutex=m)
        elif name == 'try_lock' or name == 'owns_lock':
            return w.one(pure(w, d, obj, args))
        return w.one((False, VOID))
    if cls in ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex'):
        if name == 'lock':
            w.node('lock', mutex=w.as_place(obj))
        elif name == 'unlock':
            w.node('unlock', mutex=w.as_place(obj), implicit=False)
        return w.one((False, VOID))
    if cls.startswith('std::condition_variable'):
        cv = w.as_place(obj)
        if name in ('notify_one', 'notify_all'):
            w.node('notify', cv=cv, all=(name == 'notify_all'))
            return w.one((False, VOID))
        if name == 'wait' and len(args) == 1:
            lk = w.val(args[0])
            w.node('wait', cv=cv, lock=lk, pred=False)
            havoc_shared(w)
            return w.one((False, VOID))
        if name == 'wait' and len(args) == 2:
            lk = w.val(args[0])

            def cond():
                outs = call_fn(w, args[1], w.ety(e['a'][1]), [], split=True)
                ts, fs = [], []
                for s, r in outs:
                    w.st, w.dead = s, False
                    a, b = w.branch(w.truth(w.val(r), None))
                    ts.append(a)
                    fs.append(b)
                ts = [x for x in ts if x is not None]
                fs = [x for x in fs if x is not None]
                return (w.join(fs)[0] if fs else None), (w.join(ts)[0] if ts else None)

            def body():
                w.node('wait', cv=cv, lock=lk, pred=True)
                havoc_shared(w)
            w.loop(cond, body)
            return w.one((False, VOID)) if not w.dead else []
    if cls == 'std::thread':
        if obj is None:
            return w.one(pure(w, d, obj, args))
        w.node('thread', op=name, obj=obj[1])
        if op == '=':
            w.write(obj[1], w.val(args[0]))
            return w.one(obj)
        return w.one(pure(w, d, obj, args)) if name != 'join' else w.one((False, VOID))
    if cls.startswith('std::atomic'):
        p = w.as_place(obj)
        if d.const:
            return w.one((False, w.read(p)))
        w.write(p, mk('call', qn, w.read(p), *[w.val(a) for a in args]), 'atomic')
        return w.one((False, w.read(p)))

    # containers
    if cls in W.CONTAINERS:
        return w.one(container(w, d, cls, name, op, obj, args, e))
    if cls == 'std::tuple' or cls == 'std::pair':
        if op == '=':
            v = w.val(args[0])
            o = w.val(obj)
            if o.op == 'tie':
                pairlike = None
                for i, a in enumerate(o.a):
                    at = w.ety(e['a'][0])
                    at = at.strip_ref() if at is not None else None
                    key = ('first', 'second')[i] if at is not None and at.short == 'std::pair' else '%d' % i
                    w.write(a.a[0], FLD(v, key))
                return w.one(obj)
            w.write(w.as_place(obj), v)
            return w.one(obj)
    if cls == 'std::function':
        if op == '=':
            w.write(w.as_place(obj), w.val(args[0]))
            return w.one(obj)
        if name.startswith('operator bool'):
            return w.one((False, NOT(EQ(w.val(obj), NULL))))
    if cls == 'mapbox::util::variant' and op == '=':
        v = w.val(args[0])
        at = w.ety(e['a'][0])
        at = at.strip_ref() if at is not None else None
        ot = w.ety(e['o']).strip_ref()
        if at is not None and at.short != 'mapbox::util::variant':
            alt = w.alt_type(ot, at)
            if alt is not None:
                v = mk('var', alt, v)
        w.write(w.as_place(obj), v)
        return w.one(obj)

    # Eigen and other classes
    if obj is not None:
        return w.one(eigen_like(w, d, cls, name, op, obj, args, e))
    # free function
    w.escape_args(d, args)
    vs = [w.val(a) for a in args]
    if qn in ('std::conj',):
        return w.one((False, conj(vs[0])))
    if qn in ('std::max', 'std::min') and len(vs) == 2:
        vs.sort(key=lambda t: t.id)
    if d.noreturn:
        w.do_throw(None, mk('call', qn), 'external')
        return []
    if d.n == 'LinSpaced' and ', 1, -1, 1' in str(getattr(d.clst, 's', '')):
        return w.one((False, mk('transpose', mk('call', qn, *vs))))       # a row
    return w.one((False, mk('call', qn, *vs)))


def conj(v):
    if v.op == 'conj':
        return v.a[0]
    if v.op in ('c', 'cf'):
        return v
    return mk('conj', v)


def eigen_op(op, vs, d):
    x, y = vs
    if op == '+':
        return ADD(x, y)
    if op == '-':
        return SUB(x, y)
    if op == '*':
        # matrix products do not commute; keep operand order unless one side is scalar-like
        return mk('prod', x, y) if not (x.op in ('c', 'cf') or y.op in ('c', 'cf')) else MUL(x, y)
    if op == '==':
        return EQ(x, y)
    if op == '!=':
        return NOT(EQ(x, y))
    if op == '<':
        return LT(x, y)
    if op == '>':
        return LT(y, x)
    if op == '<=':
        return NOT(LT(y, x))
    if op == '>=':
        return NOT(LT(x, y))
    if op == '&&':
        return AND(x, y)
    if op == '||':
        return OR(x, y)
    return mk('op', op, x, y)


def havoc_shared(w):
    """after waiting, everything except locals/params of the analysis may have changed"""
    for k in list(w.st.env):
        r = root_of(k)
        if r.op == 'root' and r.a[0] == 'this':
            w.uid += 1
            w.st.env[k] = mk('lv', w.uid, k)


def visitor_call(w, f, ft, at, ar, split):
    v = w.val(f)
    if v in w.clos:
        return call_fn(w, f, ft, [ar], split)
    t = ft.strip_ref() if ft is not None else None
    if t is not None and t.rid in w.P.recs:
        R = w.P.recs[t.rid]
        best = None
        want = at.s.replace('const ', '').replace('struct ', '').replace('class ', '')
        cands = []
        for m in R.methods:
            if m['n'] != 'operator()':
                continue
            D = w.P.decls.get(m['id'])
            if D is None or len(D.params) != 1:
                continue
            pt = D.params[0].strip_ref()
            s = pt.s.replace('const ', '').replace('struct ', '').replace('class ', '')
            if s == want:
                cands.append((0, m['id']))
            elif pt.rid and at.rid and converts(w, at, pt):
                cands.append((1, m['id']))
        if not cands:
            # constructible parameter types (e.g. Ref<Array> from Map)
            for m in R.methods:
                if m['n'] == 'operator()' and m['id'] in w.P.fns:
                    D = w.P.decls.get(m['id'])
                    if D is not None and len(D.params) == 1:
                        cands.append((2, m['id']))
            if len(cands) > 1:
                sc = scalar_of(at.s)
                c2 = [c for c in cands if scalar_of(w.P.decls[c[1]].params[0].s) == sc]
                cands = c2 or cands
        cands.sort()
        for _, i in cands:
            fn = w.P.fns.get(i)
            if fn is not None and w.can_inline(fn):
                return w.inline(fn, w.as_place(f), [ar], {}, split=split)
        if cands:
            qn = w.P.decls[cands[0][1]].qn
            if qn in w.throwing:
                w.maybe_throw(qn)
            return w.one((False, mk('call', qn, v, w.val(ar))))
    return w.one((False, mk('call', '<visitor>', v, w.val(ar))))


def scalar_of(s):
    if 'complex<double>' in s:
        return 'cd'
    if 'complex<float>' in s:
        return 'cf'
    if 'double' in s:
        return 'd'
    if 'float' in s:
        return 'f'
    return '?'


def converts(w, at, pt):
    todo = [at]
    while todo:
        x = todo.pop()
        if x.rid == pt.rid:
            return True
        R = w.P.recs.get(x.rid) if x.rid else None
        if R is not None:
            todo.extend(b for b in R.bases if b is not None)
    return False


def construct(w, rec, place, args, ats):
    """run the matching constructor of a repository record (make_shared/emplace)"""
    cands = []
    for m in rec.methods:
        if not m.get('ctor') or m['id'] not in w.P.fns:
            continue
        D = w.P.decls[m['id']]
        if len(w.P.fns[m['id']].p) != len(args):
            continue
        score = 0
        for p, a in zip(D.params, ats):
            if p is None or a is None:
                continue
            x, y = p.strip_ref(), a.strip_ref()
            if x.s.replace('const ', '') == y.s.replace('const ', ''):
                score += 2
            elif x.short == y.short:
                score += 1
        cands.append((score, m['id']))
    cands.sort(reverse=True)
    if cands:
        fn = w.P.fns[cands[0][1]]
        if w.can_inline(fn):
            w.inline(fn, place, args, {}, is_ctor=True)
            return True
        if fn.qn in w.throwing:
            w.maybe_throw(fn.qn)
        return False
    if len(args) == 1:
        x = ats[0].strip_ref() if ats[0] is not None else None
        if x is not None and x.rid == rec.id:
            w.setval(place, w.val(args[0]))
            return True
    return False


def container(w, d, cls, name, op, obj, args, e):
    isplace, t = obj
    p = t
    if name in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend'):
        if not isplace:
            p = w.as_place(obj)
        return (False, mk('iter', p, cint(0) if name in ('begin', 'cbegin') else
                          (mk('endpos') if name in ('end', 'cend') else mk(name))))
    if name in ('size', 'length'):
        return (False, SIZE(w.val(obj)))
    if name == 'empty':
        return (False, EQ(SIZE(w.val(obj)), cint(0)))
    if name == 'data' or name == 'c_str':
        if name == 'c_str':
            return (False, w.val(obj))
        p = w.as_place(obj)
        return (False, mk('addr', ELEM(p, cint(0))))
    if op == '[]' or name == 'at':
        k = w.val(args[0])
        if cls in W.MAPS:
            base = p if isplace else t
            if op == '[]' and isplace:
                w.node('mapindex', place=p, key=k)
            el = FLD(ELEM(base, mk('findpos', k)), 'second')
            if name == 'at' and w.at_throws:
                w.node('at', place=p, key=k)
                w.maybe_throw('at')
            return (isplace, el)
        if name == 'at' and w.at_throws:
            w.node('at', place=p, key=k)
            w.maybe_throw('at')
        return (isplace, ELEM(p, k))
    if name in ('front', 'back', 'top'):
        return (isplace, ELEM(p, cint(0) if name == 'front' else ADD(SIZE(w.val(obj)), cint(-1))))
    if name == 'find' and cls not in ('std::basic_string', 'std::__cxx11::basic_string'):
        p = w.as_place(obj)
        return (False, mk('iter', p, mk('findpos', w.val(args[0]))))
    if name == 'count' and cls in W.MAPS | {'std::set', 'std::unordered_set'}:
        # 1 iff present
        p = w.as_place(obj)
        return (False, SEL(EQ(mk('findpos', w.val(args[0])), mk('endpos')), cint(0), cint(1)))
    if op == '=':
        w.write(w.as_place(obj), w.val(args[0]))
        return obj
    if op == '+=':
        w.write(w.as_place(obj), mk('op', '+', w.val(obj), w.val(args[0])), '+=')
        return obj
    if name == 'clear' and not args:
        p = w.as_place(obj)
        w.node('mut', place=p, method='clear', args=())
        w.setval(p, mk('list'))
        return (False, VOID)
    if name == 'swap':
        a, b = w.as_place(obj), w.as_place(args[0])
        x, y = w.read(a), w.read(b)
        w.write(a, y, 'swap')
        w.write(b, x, 'swap')
        return (False, VOID)
    if name in ('reserve', 'shrink_to_fit', 'max_size', 'capacity'):
        return (False, VOID if name != 'capacity' else w.fresh('cap'))
    if d.const:
        return pure(w, d, obj, args, cls + '::' + name)
    if name == 'emplace' and cls in W.MAPS and len(args) == 2:
        p = w.as_place(obj)
        n = w.mut(p, 'insert', tuple(w.val(a) for a in args))
        done = w.fresh('inserted')
        if n is not None:
            n.d['inserted'] = done
        return (False, mk('obj', mk('call', 'insert-result'), ('first', mk('iter', p, mk('findpos', w.val(args[0])))),
                          ('second', done)))
    if name in ('emplace_back', 'push_back', 'emplace', 'push', 'push_front', 'emplace_front'):
        p = w.as_place(obj)
        vs = emplace_value(w, d, cls, name, args, e)
        old = w.read(p)
        w.mut(p, 'push_back' if name in ('emplace_back', 'push_back', 'push') or cls not in W.MAPS else name, vs)
        # newly appended element
        if cls in ('std::vector', 'std::deque') and name.endswith('back'):
            pass
        return (True, ELEM(p, ADD(SIZE(old), cint(0)))) if name.endswith('back') else (False, w.fresh(name))
    if name == 'insert' and cls in W.MAPS and len(args) == 1:
        p = w.as_place(obj)
        n = w.mut(p, 'insert', (w.val(args[0]),))
        done = w.fresh('inserted')
        if n is not None:
            n.d['inserted'] = done
        return (False, mk('obj', mk('call', 'insert-result'), ('first', mk('iter', p, mk('findpos', FLD(w.val(args[0]), 'first')))),
                          ('second', done)))
    p = w.as_place(obj)
    w.mut(p, name, tuple(w.val(a) for a in args))
    if name in ('erase', 'insert'):
        return (False, mk('iter', p, w.val(args[0]).a[1] if args and w.val(args[0]).op == 'iter' else w.fresh(name)))
    return (False, w.fresh(name))


def emplace_value(w, d, cls, name, args, e):
    if name.startswith('emplace') and cls in ('std::vector', 'std::deque', 'std::queue'):
        ct = d.clst
        et = ct.targs[0] if ct is not None and ct.targs else None
        if et is not None and et.rid in w.P.recs and w.P.recs[et.rid].repo:
            h = w.newroot('tmp', et.short)
            if construct(w, w.P.recs[et.rid], h, args, [w.ety(a) for a in e['a']]):
                return (w.read(h),)
    return tuple(w.val(a) for a in args)


def eigen_like(w, d, cls, name, op, obj, args, e):
    isplace, t = obj
    if name == 'unaryExpr' and len(args) == 1:
        # every element through a pure callable: map(array, bound element, result)
        w.uid += 1
        x = mk('root', 'bound', w.uid, 'x')
        outs = call_fn(w, args[0], None, [(False, x)])
        if outs and len(outs) == 1:
            w.st, w.dead = outs[0][0], False
            return (False, mk('map', w.val(obj), x, w.val(outs[0][1])))
    # identity wrappers
    if name in W.IDENT_METHODS and not args:
        if name == 'cast' and cls.startswith('Eigen::Sparse'):
            return (False, w.val(obj))
        return obj
    if name in W.SUB_METHODS and not (name == 'col' and False):
        base = w.as_place(obj) if not isplace else t
        vs = [w.val(a) for a in args]
        if cls.endswith('InnerIterator') or cls.endswith('Triplet'):
            return pure(w, d, obj, args, cls + '::' + name)
        if not isplace:
            return (False, mk('sub', w.val(obj), name, *vs))
        if name == 'head' and vs:
            return (True, mk('sub', base, 'segment', cint(0), *vs))
        return (True, mk('sub', base, name, *vs))
    if name in ('x', 'y', 'z', 'w') and not args and cls.startswith('Eigen::'):
        return (isplace, ELEM(t if isplace else w.val(obj), cint('xyzw'.index(name))))
    if name in W.ELEM_METHODS or op in ('()', '[]'):
        if cls.startswith('Eigen::') or cls.startswith('std::complex'):
            vs = [w.val(a) for a in args]
            idx = vs[0] if len(vs) == 1 else mk('ix', *vs)
            base = t if isplace else w.val(obj)
            if name in ('insert', 'coeffRef') and 'Sparse' in cls and isplace:
                w.node('sparse_access', place=base, idx=idx, method=name)
            return (isplace, ELEM(base, idx))
    if name in ('size', 'rows', 'cols', 'nonZeros', 'outerSize', 'innerSize') and not args:
        v = w.val(obj)
        return (False, SIZE(v) if name == 'size' and cls.startswith('Eigen::') else mk('call', name, v))
    if name == 'data' and not args:
        p = w.as_place(obj)
        return (False, mk('addr', ELEM(p, cint(0))))
    if name in ('valuePtr', 'innerIndexPtr', 'outerIndexPtr') and not args:
        p = w.as_place(obj)
        return (False, mk('addr', ELEM(FLD(p, name), cint(0))))
    if name in ('begin', 'end', 'cbegin', 'cend') and not args:
        p = w.as_place(obj)
        return (False, mk('iter', p, cint(0) if 'begin' in name else mk('endpos')))
    if name in ('conjugate',):
        return (False, conj(w.val(obj)))
    if name == 'adjoint':
        return (False, conj(mk('transpose', w.val(obj))))
    if name == 'transpose':
        return (False, mk('transpose', w.val(obj)))
    if op == '=':
        w.write(w.as_place(obj), w.val(args[0]))
        return obj
    if op in ('+=', '-=', '*=', '/='):
        p = w.as_place(obj)
        x, y = w.read(p), w.val(args[0])
        o = op[0]
        v = ADD(x, y) if o == '+' else SUB(x, y) if o == '-' else mk('prod', x, y) if o == '*' else mk('op', '/', x, y)
        w.write(p, v, op)
        return obj
    if op in ('+', '-', '*', '/', '==', '!=', '<', '>', '<=', '>=', '&&', '||') and len(args) == 1:
        return (False, eigen_op(op, [w.val(obj), w.val(args[0])], d))
    if op == '-' and not args:
        return (False, NEG(w.val(obj)))
    if op == '!' and not args:
        return (False, NOT(w.val(obj)))
    if name.startswith('operator bool'):
        return (False, mk('call', cls + '::bool', w.val(obj)))
    if op in ('<<', ',') and not d.const:
        w.mut(w.as_place(obj), 'comma', (w.val(args[0]),) if args else ())
        return obj
    if name == 'swap' and len(args) == 1:
        a, b = w.as_place(obj), w.as_place(args[0])
        x, y = w.read(a), w.read(b)
        w.write(a, y, 'swap')
        w.write(b, x, 'swap')
        return (False, VOID)
    if name in ('setZero', 'setOnes', 'setConstant', 'setIdentity') and isplace:
        v = {'setZero': cint(0), 'setOnes': cint(1)}.get(name)
        if v is None:
            v = w.val(args[-1]) if name == 'setConstant' else mk('identity')
        w.node('mut', place=t, method=name, args=tuple(w.val(a) for a in args))
        w.setval(t, v)
        return obj
    if name in ('valueRef',):
        return (True, FLD(DEREF(w.val(obj)), name))
    if not d.const and not d.static and not d.conv and d.method and isplace and not name.startswith('operator') \
            and name not in ('real', 'imag', 'colwise', 'rowwise', 'reverse', 'markAsRValue'):
        w.mut(t, name, tuple(w.val(a) for a in args))
        w.escape_args(d, args)
        if d.ret is not None and d.ret.k == 'lref' and d.ret.to is not None and d.ret.to.short == cls:
            return obj
        return (False, mk('call', d.qn, w.val(obj), *[w.val(a) for a in args]))
    if not d.const and op in ('++', '--') and isplace:
        w.mut(t, 'op' + op, ())
        return obj
    if not d.const and op == '()' and isplace and cls.startswith('std::'):
        # stateful function object (random distributions, engines)
        w.mut(t, name, tuple(w.val(a) for a in args))
        w.escape_args(d, args)
        return (False, mk('call', d.qn, w.fresh('draw')))
    w.escape_args(d, args)
    return pure(w, d, obj, args)
