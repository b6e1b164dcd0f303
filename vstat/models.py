"""Models of the standard library and Eigen used by the interpreter."""
import re
from terms import *
from engine import (var, fld, idx, deref, addr, _deref_t, isq, SMART, STAR, path, rel)

NONE = object()
MATHS = {'sqrt', 'sin', 'cos', 'tan', 'atan2', 'atan', 'exp', 'log', 'pow', 'abs', 'fabs', 'round', 'floor', 'ceil',
         'hypot', 'isnan', 'isfinite', 'isinf', 'asin', 'acos', 'lround', 'trunc', 'fmod', 'fmin', 'fmax', 'cbrt', 'tanh', 'signbit', 'copysign', 'llround', 'nearbyint', 'rint'}


def cut(q):
    return q.rsplit('::', 1)[0]


# ------------------------------------------------------------------ Eigen geometry
_fx = re.compile(r'^(?:const )?Eigen::(?:Matrix|Array)<\w+, (-?\d+), (-?\d+)')


def sdims(t):
    """static (rows, cols) from a type, None when dynamic"""
    s_ = t['s']
    m = _fx.match(s_.replace('const ', ''))
    if m:
        return tuple(int(x) if int(x) > 0 else None for x in m.groups())
    m = re.match(r'^(?:const )?Eigen::(?:Block|VectorBlock)<.*, (-?\d+), (-?\d+), (?:true|false)>', s_)
    if m:
        return tuple(int(x) if int(x) > 0 else None for x in m.groups())
    m = re.search(r'Eigen::Ref<(?:const )?Eigen::Matrix<\w+, (-?\d+), (-?\d+)', s_)
    if m and (s_.startswith('Eigen::Ref') or s_.startswith('const Eigen::Ref')):
        return tuple(int(x) if int(x) > 0 else None for x in m.groups())
    return (None, None)


def note_dims(en, l, t):
    d = sdims(t)
    D = en.__dict__.setdefault('dimtab', {})
    o = D.get(l, (None, None))
    D[l] = (o[0] or d[0], o[1] or d[1])


def vrows(v, i):
    if v.op == 'app' and v.a[0] in ('Zero', 'Ones', 'Uninit', 'Identity', 'Random', 'Const'):
        k = 2 if v.a[0] == 'Const' else 1
        if len(v.a) > k + i:
            return v.a[k + i]
        if i == 1 and len(v.a) == k + 1:
            return ONE
    if v.op == 'app' and v.a[0] == 'transpose':
        return vrows(v.a[1], 1 - i)
    if v.op == 'init':
        return raw('init', fld(v.a[0], '#cols' if i else '#rows'))
    if v.op == 'agg':
        return vrows(v.a[0], i)
    if v.op in ('+', '-') and len(v.a) == 2:
        return vrows(v.a[0], i)
    return None


def rows(en, l, t, i=0):
    d = sdims(t)
    if d[i]:
        return c(d[i])
    if l.op == 'blk':
        return l.a[3 + i]
    D = en.__dict__.get('dimtab', {}).get(l)
    if D and D[i]:
        return c(D[i])
    SD = en.__dict__.get('symdims', {}).get(l)
    if SD is not None and SD[i] is not None:
        return SD[i]
    v = en.rd(l)
    if v.op == 'ite':
        v = leaves(v)[0]
    r = vrows(v, i)
    if r is not None:
        return r
    return raw('init', fld(l, '#cols' if i else '#rows'))


def mkidx(en, l, *i):
    if l.op == 'ite':
        return map1(lambda x: mkidx(en, x, *i), l)
    if l.op == 'blk':
        b, r0, c0, nr, nc = l.a
        if len(i) == 1:
            if nc is ONE:
                i = (i[0], ZERO)
            elif nr is ONE:
                i = (ZERO, i[0])
            else:
                return idx(l, *i)
        r, cc = iadd(r0, i[0]), iadd(c0, i[1])
        if isvec(en, b):
            return idx(b, r)
        return idx(b, r, cc)
    if len(i) == 2 and i[1] is ZERO and isvec(en, l):
        i = (i[0],)
    return idx(l, *i)


def isvec(en, l):
    D = en.__dict__.get('dimtab', {}).get(l)
    return bool(D and D[1] == 1)


def mkblk(en, l, r0, c0, nr, nc):
    if l.op == 'ite':
        return map1(lambda x: mkblk(en, x, r0, c0, nr, nc), l)
    if l.op == 'blk':
        b, r1, c1, _, _ = l.a
        return raw('blk', b, iadd(r1, r0), iadd(c1, c0), nr, nc)
    # whole-matrix block
    D = en.__dict__.get('dimtab', {}).get(l, (None, None))
    if r0 is ZERO and c0 is ZERO and D[0] and D[1] and cv(nr) == D[0] and cv(nc) == D[1]:
        return l
    return raw('blk', l, r0, c0, nr, nc)


def targs(fn):
    """template arguments of a member function from its key"""
    m = re.search(r'::%s<([^()]*)>\(' % re.escape(fn['n']), fn['key'])
    return [x.strip() for x in m.group(1).split(',')] if m else []


VIEWS = {'head', 'tail', 'segment', 'block', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner',
         'topRows', 'bottomRows', 'leftCols', 'rightCols', 'col', 'row', 'middleRows', 'middleCols'}
SAME = {'noalias', 'array', 'matrix', 'derived', 'const_cast_derived', 'eval', 'lazyAssign', 'nestedExpression'}
SETTERS = {'setZero', 'setOnes', 'setIdentity', 'setConstant', 'fill', 'setRandom', 'resize', 'conservativeResize', 'swap', 'normalize', 'setLinSpaced', 'transposeInPlace', 'conservativeResizeLike', 'resizeLike'}


def view(en, e, fn, l, t, args):
    n = fn['n']
    ta = [c(int(x)) if int(x) >= 0 else None for x in targs(fn) if re.fullmatch(r'-?\d+', x)]
    av = [en.ev(a) for a in args]
    if ta and any(x is None for x in ta):
        # a dynamic size among the template arguments: the run-time arguments give it
        run = av[-len(ta):] if len(av) >= len(ta) else []
        ta = [x if x is not None else (run[i] if run else NONE) for i, x in enumerate(ta)]
    R = lambda: rows(en, l, t, 0)
    C = lambda: rows(en, l, t, 1)
    isv = sdims(t)[1] == 1 or l.op == 'blk' and l.a[4] is ONE or isvec(en, l)
    isr = not isv and (sdims(t)[0] == 1 or l.op == 'blk' and l.a[3] is ONE)

    def vecpart(st, ln):
        if isr:
            return mkblk(en, l, ZERO, st, ONE, ln)
        return mkblk(en, l, st, ZERO, ln, ONE)
    full = R if not isr else C
    if n in ('head', 'tail'):
        k = ta[0] if ta else av[0]
        return vecpart(ZERO if n == 'head' else isub(full(), k), k)
    if n == 'segment':
        if ta:
            return vecpart(av[0], ta[0])
        return vecpart(av[0], av[1])
    if n == 'col':
        return mkblk(en, l, ZERO, av[0], R(), ONE)
    if n == 'row':
        return mkblk(en, l, av[0], ZERO, ONE, C())
    if n == 'block':
        if len(ta) >= 2:
            return mkblk(en, l, av[0], av[1], ta[0], ta[1])
        return mkblk(en, l, *av[:4])
    if n.endswith('Corner'):
        nr, nc = (ta[0], ta[1]) if len(ta) >= 2 else (av[0], av[1])
        r0 = isub(R(), nr) if 'bottom' in n else ZERO
        c0 = isub(C(), nc) if 'Right' in n else ZERO
        return mkblk(en, l, r0, c0, nr, nc)
    k = ta[0] if ta else av[-1] if n not in ('middleRows', 'middleCols') else None
    if n == 'topRows':
        return mkblk(en, l, ZERO, ZERO, k, C())
    if n == 'bottomRows':
        return mkblk(en, l, isub(R(), k), ZERO, k, C())
    if n == 'leftCols':
        return mkblk(en, l, ZERO, ZERO, R(), k)
    if n == 'rightCols':
        return mkblk(en, l, ZERO, isub(C(), k), R(), k)
    if n == 'middleRows':
        return mkblk(en, l, av[0], ZERO, ta[0] if ta else av[1], C())
    if n == 'middleCols':
        return mkblk(en, l, ZERO, av[0], R(), ta[0] if ta else av[1])
    return NONE


def is_eigen_t(t):
    return t.get('rq', '').startswith('Eigen::')


def eig_obj(en, ob, e):
    """(location or None, value thunk, type) of an Eigen receiver expression"""
    t = en.ty(ob)
    if e.get('ar') and e['k'] == 'mcl':
        l = _deref_t(en.ev(ob))
        return l, t
    if ob.get('lv') or en.view(ob) or t.get('rq') in ('Eigen::Block', 'Eigen::VectorBlock', 'Eigen::Ref', 'Eigen::Matrix', 'Eigen::Map', 'Eigen::LLT', 'Eigen::LDLT'):
        l = en.lv(ob)
        if t.get('rq') in ('Eigen::Matrix',):
            note_dims(en, l, t)
        return l, t
    if ob['k'] in ('mcl',) and ob.get('fn', {}).get('n') in SAME and 'Eigen' in ob['fn']['q']:
        l, _ = eig_obj(en, ob['ob'], ob)
        if l is not None:
            return l, t
    return None, t


def eigen(en, e, fn):
    k, n = e['k'], fn['n']
    args = e['as']
    if k == 'mcl':
        l, t = eig_obj(en, e['ob'], e)
        if en.dead():
            return UNDEF
        if t['k'] == 'ptr':
            t = dict(t, s=t.get('pt', ''), rq='Eigen::Matrix')
        if l is not None and l in getattr(en, 'viewlocs', {}):
            l = en.viewlocs[l]
        if n in VIEWS:
            if l is None:
                l = en.tmp(e, 'v')
                en.st.write(l, en.ev(e['ob']))
            r = view(en, e, fn, l, t, args)
            if r is not NONE:
                return ('loc', r)
        if n in SAME and l is not None:
            return ('loc', l)
        if n in SAME:
            return en.ev(e['ob'])
        if n in SETTERS and l is not None:
            av = [en.ev(a) for a in args]
            if en.dead():
                return UNDEF
            if n == 'setZero':
                v = app('Zero', *(av or [rows(en, l, t, 0), rows(en, l, t, 1)][:(1 if sdims(t)[1] == 1 or isvec(en, l) else 2)]))
            elif n == 'setOnes':
                v = app('Const', ONE, *(av or [rows(en, l, t, 0), rows(en, l, t, 1)][:(1 if sdims(t)[1] == 1 else 2)]))
            elif n == 'setIdentity':
                v = app('Identity', *(av or [rows(en, l, t, 0), rows(en, l, t, 1)]))
            elif n in ('setConstant', 'fill'):
                sz = av[:-1] or [rows(en, l, t, 0), rows(en, l, t, 1)][:(1 if sdims(t)[1] == 1 or isvec(en, l) else 2)]
                v = app('Const', av[-1], *sz)
            elif n == 'resize':
                v = app('Uninit', *av)
            elif n == 'conservativeResize':
                v = app('Resized', en.rd(l), *av)
            elif n == 'swap':
                l2 = en.lv(args[0])
                v1, v2 = en.rd(l), en.rd(l2)
                en.wr(l2, v1, e)
                v = v2
            else:
                v = raw('ret', en.evid('eig', e), *av)
            en.wr(l, v, e)
            return ('loc', l)
        if n in ('operator()', 'operator[]', 'coeff', 'coeffRef', 'x', 'y', 'z', 'w'):
            return NONE
        if n in ('rows', 'cols', 'size') and l is not None:
            if n == 'rows':
                return rows(en, l, t, 0)
            if n == 'cols':
                return rows(en, l, t, 1)
            d = sdims(t)
            if d[1] == 1 or isvec(en, l) or l.op == 'blk' and l.a[4] is ONE:
                return rows(en, l, t, 0)
            return imul(rows(en, l, t, 0), rows(en, l, t, 1))
        q = fn['cq']
        if q.startswith(('Eigen::LLT', 'Eigen::LDLT', 'Eigen::PartialPivLU', 'Eigen::HouseholderQR', 'Eigen::ColPiv', 'Eigen::FullPiv')):
            av = [en.ev(a) for a in args] if n not in ('solveInPlace',) else []
            if n == 'compute':
                en.wr(l, app(q.split('::')[-1], *av), e)
                en.event('call', e, name='compute', fn=fn, recv=l, args=[(None, v) for v in av])
                return ('loc', l)
            f = en.rd(l) if l is not None else en.ev(e['ob'])
            if n == 'info':
                return app('info', f)
            if n == 'solve':
                return app('solve', f, *av)
            if n == 'solveInPlace':
                l2 = en.lv(args[0])
                en.wr(l2, app('solve', f, en.rd(l2)), e)
                return UNDEF
            return app('E.' + n, f, *av)
        v = en.val(l, e['ob']) if l is not None else en.ev(e['ob'])
        if en.dead():
            return UNDEF
        av = [en.ev(a) for a in args]
        ta = targs(fn)
        if n == 'template lpNorm' or n == 'lpNorm':
            return app('lpNorm', s(ta[0] if ta else '?'), v)
        if n in ('norm',) and not av:
            return app('lpNorm', s('2'), v)
        if n == 'transpose':
            return transpose(v)
        if n in ('adjoint',):
            return transpose(v)
        if n == 'asDiagonal':
            return app('diag', v)
        if n == 'cast' or n == 'value':
            return app('E.' + n, v)
        return app('E.' + n, v, *av)
    if k == 'opc':
        op = e['op']
        if op in ('()', '[]'):
            l, t = eig_obj(en, args[0], e)
            if l is None:
                v = en.ev(args[0])
                av = [en.ev(a) for a in args[1:]]
                if en.dead():
                    return UNDEF
                from engine import select
                return select(v, ('i',) + tuple(av), None)
            av = [en.ev(a) for a in args[1:]]
            if en.dead():
                return UNDEF
            if l in getattr(en, 'viewlocs', {}):
                l = en.viewlocs[l]
            return ('loc', mkidx(en, l, *av))
        if op in ('=', '+=', '-=', '*=', '/='):
            l, t = eig_obj(en, args[0], e)
            if op == '=' and args[1]['k'] == 'ctor' and args[1]['fn']['cq'] in ('Eigen::Matrix',) and len(args[1]['as']) == 1 and is_eigen_t(en.ty(args[1]['as'][0])):
                b = en.ev(args[1]['as'][0])
            else:
                b = en.ev(args[1])
            if en.dead():
                return UNDEF
            if l is None:
                # an entry-wise view of something: the whole of it is unknown afterwards
                ob = args[0]
                while l is None and isinstance(ob, dict) and ob.get('k') == 'mcl' and ob.get('ob') is not None:
                    ob = ob['ob']
                    l, t = eig_obj(en, ob, ob)
                if l is not None:
                    l = getattr(en, 'viewlocs', {}).get(l, l)
                    en.wr(l, raw('unk', en.evid('unk', e)), e)
                return raw('unk', en.evid('unk', e))
            if l in getattr(en, 'viewlocs', {}):
                l = en.viewlocs[l]
            if op != '=':
                a = en.val(l, args[0])
                b = ebin(op[0], a, b, 'Array' in en.ty(args[0])['s'][:30] and is_eigen_t(en.ty(args[1])))
                b.ty = b.ty or t
            if b.op == 'app' and b.a[0] in ('Zero', 'Identity') and len(b.a) == 1 and l.op != 'ite':
                b = app(b.a[0], rows(en, l, t, 0), rows(en, l, t, 1))
            en.wr(l, b, e)
            return ('loc', l)
        if op in ('+', '-', '*', '/'):
            if len(args) == 1:
                return raw('neg', en.ev(args[0]))
            a, b = en.ev(args[0]), en.ev(args[1])
            if en.dead():
                return UNDEF
            return ebin(op, a, b, cwise(en, e, args[0], args[1]))
        if op in ('<<', ','):
            return comma(en, e)
        av = [en.ev(a) for a in args]
        return app('E.op' + op, *av)
    # free / static functions
    av = [en.ev(a) for a in args]
    if en.dead():
        return UNDEF
    if fn.get('op'):
        if len(av) == 2:
            return ebin(fn['op'], *av, cwise(en, e, args[0], args[1]))
        if fn['op'] == '-':
            return raw('neg', *av)
    if n in ('Zero', 'Identity', 'Ones', 'Constant', 'Random', 'Unit', 'LinSpaced'):
        rt = en.frames[-1].T[fn['rt']]
        if n == 'Ones':
            return app('Const', ONE, *av)
        if n == 'Constant':
            return app('Const', av[-1], *av[:-1])
        if n in ('Zero', 'Identity') and not av:
            m = re.search(r'Eigen::Matrix<\w+, (\d+), (\d+)', fn['cls'] or '')
            m = m or re.search(r'Eigen::Matrix<\w+, (\d+), (\d+)', rt['s'])
            if m:
                return app(n, c(int(m.group(1))), c(int(m.group(2))))
        if n == 'Random':
            return raw('ret', en.evid('rnd', e), s('Random'))
        return app(n, *av)
    return app('E.' + n, *av)


def transpose(v):
    if v.op == 'ite':
        return map1(transpose, v)
    if v.op == 'app' and v.a[0] == 'transpose':
        return v.a[1]
    return app('transpose', v)


def cwise(en, e, a, b):
    return is_eigen_t(en.ty(a)) and is_eigen_t(en.ty(b)) and en.ty(e).get('rq', '') != 'Eigen::Product'


def ebin(op, a, b, cw=False):
    if cw and op in '*/':
        return map2(lambda x, y: raw('cw' + op, x, y), a, b) if (a.op == 'ite' or b.op == 'ite') and len(leaves(a)) * len(leaves(b)) <= 16 else raw('cw' + op, a, b)
    return arith(op, a, b)


def comma(en, e):
    items = []
    x = e
    while x['k'] == 'opc' and x['op'] == ',':
        items.append(x['as'][1])
        x = x['as'][0]
        while x['k'] == 'cast':
            x = x['a']
    if x['k'] != 'opc' or x['op'] != '<<':
        return NONE
    items.append(x['as'][1])
    items.reverse()
    l, t = eig_obj(en, x['as'][0], x)
    vals = []
    allscalar = True
    for i in items:
        if is_eigen_t(en.ty(i)):
            allscalar = False
        vals.append(en.ev(i))
    if en.dead():
        return UNDEF
    d = sdims(t)
    if allscalar and d[1] == 1:
        for i, v in enumerate(vals):
            en.wr(mkidx(en, l, c(i)), v, e)
    elif allscalar and d[1]:
        for i, v in enumerate(vals):
            en.wr(mkidx(en, l, c(i // d[1]), c(i % d[1])), v, e)
    else:
        en.wr(l, app('comma', *vals), e)
    return ('loc', l)


# ------------------------------------------------------------------ dispatcher
def model(en, e, fn):
    q, n, k = fn['q'], fn['n'], e['k']
    if q.startswith('Eigen::'):
        r = eigen(en, e, fn)
        if r is not NONE:
            return r
        return NONE
    if q.startswith('__gnu_cxx::'):
        if 'normal_iterator' in fn.get('cq', ''):
            return iterm(en, e, fn)
        return stdop(en, e, fn) if fn.get('op') else NONE
    if q.startswith('std::') or q in MATHS or n in MATHS and not fn.get('m'):
        return stdlib(en, e, fn)
    if q.startswith('fmt::') or q.startswith('fmt'):
        av = []
        for a in e['as']:
            av.append(en.ev(a))
            if en.dead():
                return UNDEF
        if n in ('print', 'vprint', 'println'):
            en.event('call', e, name='print', fn=fn, args=[(None, v) for v in av], extra='print')
            return UNDEF
        return app('fmt.' + n, *av)
    if q in ('printf', 'fprintf', 'puts', 'fputs', 'putchar', 'fwrite', 'perror'):
        av = [en.ev(a) for a in e['as']]
        if not en.dead():
            en.event('call', e, name='print', fn=fn, args=[(None, v) for v in av], extra='print')
        return UNDEF
    return NONE


def _argv(en, e):
    return [en.ev(a) for a in e['as']]


def stdlib(en, e, fn):
    q, n, k = fn['q'], fn['n'], e['k']
    args = e['as']
    cq = fn.get('cq', '')
    base = q[5:] if q.startswith('std::') else q
    if not fn.get('m'):
        if base in ('move', 'forward', 'as_const', '__addressof', 'addressof', 'ref', 'cref', 'move_if_noexcept'):
            if 'addressof' in base:
                return addr(en.lv(args[0]))
            a = args[0]
            return ('loc', en.lv(a))
        if base in ('max', 'min', 'fmax', 'fmin') and len(args) == 2:
            a, b = en.ev(args[0]), en.ev(args[1])
            if en.dead():
                return UNDEF
            t = en.ty(e)
            lt = flt if t['k'] == 'float' or base[0] == 'f' else ilt
            return ite(lt(b, a), b, a) if base.endswith('min') else ite(lt(a, b), b, a)
        if base in ('max', 'min') and len(args) == 1:
            v = en.ev(args[0])
            if v.op == 'tup':
                t = en.ty(e)
                lt = flt if t['k'] == 'float' else ilt
                r = v.a[0]
                for x in v.a[1:]:
                    r = ite(lt(r, x), x, r) if base == 'max' else ite(lt(x, r), x, r)
                return r
            return app('std.' + base, v)
        if base == 'clamp':
            v, lo, hi = _argv(en, e)
            return ite(flt(v, lo), lo, ite(flt(hi, v), hi, v))
        if base in MATHS:
            av = _argv(en, e)
            nm = {'fabs': 'abs'}.get(base, base)
            if nm == 'pow' and cv(av[1]) == 2:
                return arith('*', av[0], av[0])
            if nm == 'abs' and cv(av[0]) is not None:
                return c(abs(cv(av[0])))
            if nm in ('round', 'floor', 'ceil', 'trunc') and cv(av[0]) is not None and cv(av[0]).denominator == 1:
                return av[0]
            return app(nm, *av)
        if base in ('make_shared', 'make_unique'):
            return make_ptr(en, e, fn)
        if base == 'swap':
            a, b = en.lv(args[0]), en.lv(args[1])
            va, vb = en.rd(a), en.rd(b)
            en.wr(a, vb, e)
            en.wr(b, va, e)
            return UNDEF
        if base == 'exchange':
            a = en.lv(args[0])
            va = en.rd(a)
            en.wr(a, en.ev(args[1]), e)
            return va
        if base in ('begin', 'end', 'cbegin', 'cend', 'size'):
            l = en.lv(args[0])
            if base == 'size':
                return en.size_of(l, en.ty(args[0]))
            return addr(idx(l, ZERO if 'begin' in base else en.size_of(l, en.ty(args[0]))))
        if base in ('next', 'prev', 'advance') and args:
            p = en.ev(args[0])
            d = en.ev(args[1]) if len(args) > 1 else ONE
            return map1(lambda x: padd(x, d if base != 'prev' else iscale(d, -1)), p)
        if base in ('distance',):
            a, b = _argv(en, e)
            return pdiff(b, a)
        if base == 'for_each' and len(args) == 3:
            a, b, f = _argv(en, e)
            if a.op == 'addr' and a.a[0].op == 'idx' and b.op == 'addr' and b.a[0].op == 'idx' and a.a[0].a[0] is b.a[0].a[0]:
                return algo_loop(en, e, a.a[0], b.a[0], f)
            en.event('call', e, name=n, fn=fn, args=[(None, a), (None, b), (None, f)])
            return UNDEF
        if base in ('fill', 'fill_n', 'iota', 'sort', 'stable_sort', 'copy', 'transform', 'accumulate', 'generate', 'reverse', 'unique'):
            return algo(en, e, fn, base)
        if (base.startswith('operator') or base.startswith('__detail::operator')) and len(args) >= 1:
            return stdop(en, e, fn)
        if base == 'get':
            return NONE
        if base == 'to_string':
            return app('to_string', *_argv(en, e))
        return NONE
    # ---------------------------------------------------------------- members
    if isq(cq, SMART):
        return smart(en, e, fn)
    if cq in ('std::vector', 'std::array', 'std::deque', 'std::initializer_list', 'std::basic_string') or cq in ('std::list',):
        if cq == 'std::basic_string' and not (n in ('empty', 'size', 'length') and False):
            return string(en, e, fn)
        return vec(en, e, fn)
    if cq in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::multimap'):
        return mapm(en, e, fn)
    if cq == 'std::function' or cq == 'std::packaged_task' or cq.startswith('std::_Maybe'):
        if k == 'opc' and e['op'] == '()':
            l = en.lv(args[0])
            if en.dead():
                return UNDEF
            v = en.rd(l)
            if v.op == 'lam':
                return en.call_value(v, e, args[1:])
            vals = [(None, en.ev(a)) for a in args[1:]]
            if en.dead():
                return UNDEF
            ev = en.event('call', e, name='callvalue', recv=l, fn=fn, args=vals, val=v)
            if en.trystack:
                en.trystack[-1].append(en.st.copy())
            return raw('ret', ev.id, v)
        if k == 'opc' and e['op'] == '=':
            l = en.lv(args[0])
            v = en.ev(args[1])
            if not en.dead():
                en.wr(l, v, e)
            return ('loc', l)
        if n == 'operator bool':
            return tobool(en.rd(en.recv(e)))
        if n == 'swap':
            a, b = en.recv(e), en.lv(args[0])
            va, vb = en.rd(a), en.rd(b)
            en.wr(a, vb, e)
            en.wr(b, va, e)
            return UNDEF
        return NONE
    if cq == 'std::enable_shared_from_this' and n == 'shared_from_this':
        l = en.recv(e)
        return UNDEF if en.dead() else map1(addr, l)
    if cq in ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex'):
        l = en.recv(e)
        if n == 'lock':
            en.lock(l, e)
            return UNDEF
        if n == 'unlock':
            en.unlock(l, e)
            return UNDEF
        return NONE
    if cq == 'std::unique_lock':
        l = en.recv(e) if k == 'mcl' else en.lv(args[0])
        if en.dead():
            return UNDEF
        m = _deref_t(en.rd(fld(l, '#m')))
        if n == 'lock':
            en.lock(m, e)
            en.st.write(fld(l, '#owns'), TRUE)
            return UNDEF
        if n == 'unlock':
            en.unlock(m, e)
            en.st.write(fld(l, '#owns'), FALSE)
            return UNDEF
        if n in ('owns_lock', 'operator bool'):
            return en.rd(fld(l, '#owns'))
        return NONE
    if cq.startswith('std::atomic') or cq == 'std::__atomic_base':
        return atomic(en, e, fn)
    if '__normal_iterator' in cq or cq in ('std::reverse_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator'):
        return iterm(en, e, fn)
    if cq.startswith('std::basic_ostream') or cq.startswith('std::basic_ios') or cq.startswith('std::basic_o'):
        return stdop(en, e, fn) if k == 'opc' else NONE
    if k == 'opc' and e['op'] == '=' and fn.get('dflt'):
        l = en.lv(args[0])
        v = en.ev(args[1])
        if not en.dead():
            en.wr(l, v, e)
        return ('loc', l)
    if cq in ('std::chrono::duration', 'std::chrono::time_point'):
        return NONE
    return NONE


def padd(p, d):
    if p.op == 'addr' and p.a[0].op == 'idx' and len(p.a[0].a) == 2:
        return addr(idx(p.a[0].a[0], iadd(p.a[0].a[1], d)))
    return raw('app', 'padd', p, d)


def pdiff(a, b):
    if a.op == 'addr' and b.op == 'addr' and a.a[0].op == 'idx' and b.a[0].op == 'idx' and a.a[0].a[0] is b.a[0].a[0]:
        return isub(a.a[0].a[1], b.a[0].a[1])
    return app('pdiff', a, b)


def algo_loop(en, e, a, b, f):
    fr = en.frames[-1]
    iv = var('%s.algo@%s:%s' % (fr.act, e['l'], e['c']))
    en.birth[iv] = tuple(en.loopctx)
    en.st.write(iv, a.a[1])
    fl = en.tmp(e, 'f')
    base = a.a[0]

    def body():
        el = idx(base, en.st.read(iv))
        call_with_loc(en, e, f, el)
        return not en.dead()

    def inc():
        en.st.write(iv, iadd(en.st.read(iv), ONE))
    en.loop({'l': e['l'], 'k': 'algo', 'c': e['c']}, lambda: ilt(en.st.read(iv), b.a[1]), body, inc, rng=base)
    return f


def call_with_loc(en, e, f, el):
    if f.op == 'lam':
        t = en.P.fns.get(f.a[0])
        if t:
            from engine import Frame
            fr2 = Frame(t, None, en.new_act(t, e))
            for cp in f.a[1]:
                if cp[0] == 'this':
                    fr2.this = deref(cp[1])
                elif cp[1] == 'ref':
                    fr2.refs[cp[0]] = _deref_t(cp[2])
                else:
                    l = var('%s.cap~%s' % (fr2.act, cp[0]))
                    en.st.write(l, cp[2])
                    fr2.refs[cp[0]] = l
            p = t['ps'][0]
            if t['T'][p['t']]['ref']:
                fr2.refs[p['id']] = el
            else:
                l = var('%s.%s~%s' % (fr2.act, p['n'], p['id']))
                en.birth[l] = tuple(en.loopctx)
                en.st.write(l, en.rd(el))
                fr2.refs[p['id']] = l
            return en.enter(t, fr2, e, None, [])
    ev = en.event('call', e, name='callvalue', args=[(el, en.rd(el))], val=f)
    return raw('ret', ev.id, f)


def algo(en, e, fn, base):
    args = e['as']
    av = [en.ev(a) for a in args]
    if en.dead():
        return UNDEF
    ev = en.event('call', e, name='std::' + base, fn=fn, args=[(None, v) for v in av])
    if base in ('fill', 'iota', 'sort', 'stable_sort', 'generate', 'reverse', 'unique', 'fill_n') and av[0].op == 'addr' and av[0].a[0].op == 'idx':
        l = av[0].a[0].a[0]
        whole = av[0].a[0].a[1] is ZERO
        if base == 'fill' and whole:
            en.event('store', e, loc=idx(l, STAR), val=av[2])
            sz = en.rd(fld(l, '#size'))
            en.st.havoc(idx(l, STAR), ('fillv', av[2]))
        else:
            en.st.havoc(idx(l, STAR), ('hv', ev.id))
        return raw('ret', ev.id)
    if base == 'accumulate':
        return app('std.accumulate', *av)
    if base in ('copy', 'transform') and av[2].op == 'addr' and av[2].a[0].op == 'idx':
        en.st.havoc(idx(av[2].a[0].a[0], STAR), ('hv', ev.id))
    return raw('ret', ev.id)


def make_ptr(en, e, fn):
    rt = en.frames[-1].T[fn['rt']]
    m = re.match(r'std::(?:shared_ptr|unique_ptr)<(.*)>$', rt['s'])
    cls = m.group(1) if m else ''
    if fn['n'] == 'make_unique' and m:
        cls = re.sub(r', std::default_delete<.*>$', '', cls)
    p = raw('new', en.evid('new', e))
    l = deref(p)
    # find the constructor called
    args = e['as']
    cands = [f for f in en.P.fns.values() if f.get('ctor') and f.get('cls') == cls and len(f['ps']) >= len(args)]
    best = None
    if cands:
        def score(f):
            sc = 0
            if len(f['ps']) != len(args):
                return -1
            for a, pp in zip(args, f['ps']):
                ta, tp = en.ty(a), f['T'][pp['t']]
                sa = re.sub(r'\bconst ', '', ta['s']).rstrip('& ')
                sp = re.sub(r'\bconst ', '', tp['s']).rstrip('& ')
                if sa == sp:
                    sc += 3
                elif ta['k'] == tp['k']:
                    sc += 1
                elif {ta['k'], tp['k']} <= {'int', 'float', 'bool', 'enum'}:
                    sc += 0
                else:
                    return -1
            return sc
        sc = [(score(f), f['key'], f) for f in cands]
        sc = [x for x in sc if x[0] >= 0]
        if sc:
            best = max(sc, key=lambda x: (x[0], x[1]))[2]
    if best is not None and not best.get('dflt') and not en.is_opaque(best) and len(en.frames) < 30:
        en.inline_call(best, l, args, e)
    elif best is not None and (best.get('cc') or best.get('mc')) and best.get('dflt'):
        src = en.lv(args[0])
        if not en.dead():
            en.st.write(l, en.rd(src))
    else:
        av = _argv(en, e)
        if en.dead():
            return UNDEF
        if len(av) == 1 and cls and cls in en.P.recs and re.sub(r'const ', '', en.ty(args[0])['s']).rstrip('& ') == cls:
            en.st.write(l, av[0])
        else:
            if not av:
                en.st.write(l, app('dfltobj', s(cls)))
            else:
                en.st.write(l, app('ctor:' + cls, *av))
    if en.dead():
        return UNDEF
    en.event('new', e, name=fn['n'], fn=fn, val=p, extra=cls)
    en.__dict__.setdefault('newtypes', {})[p] = cls
    return p


def smart(en, e, fn):
    n, k = fn['n'], e['k']
    args = e['as']
    if k == 'opc':
        op = e['op']
        if op in ('*', '->'):
            p = en.ev(args[0])
            if en.dead():
                return UNDEF
            return ('loc', _deref_t(p)) if op == '*' else p
        if op == '[]':
            p = en.ev(args[0])
            i = en.ev(args[1])
            return ('loc', en.pidx(p, i))
        if op == '=':
            src = en.lv(args[1]) if is_move(args[1]) else None
            v = en.ev(args[1]) if src is None else en.rd(src)
            l = en.lv(args[0])
            if en.dead():
                return UNDEF
            if src is not None and src is not l:
                en.st.write(src, NULL)
            en.wr(l, v, e)
            return ('loc', l)
    l = en.recv(e)
    if en.dead():
        return UNDEF
    if n == 'get':
        return en.rd(l)
    if n == 'operator bool':
        return ptrbool(en.rd(l))
    if n == 'reset':
        v = en.ev(args[0]) if args else NULL
        en.wr(l, v, e)
        return UNDEF
    if n == 'release':
        v = en.rd(l)
        en.wr(l, NULL, e)
        return v
    if n == 'swap':
        l2 = en.lv(args[0])
        a, b = en.rd(l), en.rd(l2)
        en.wr(l, b, e)
        en.wr(l2, a, e)
        return UNDEF
    if n in ('use_count', 'unique'):
        return app(n, en.rd(l))
    return NONE


def vsz(l):
    return fld(l, '#size')


def vec(en, e, fn):
    n, k = fn['n'], e['k']
    args = e['as']
    isarr = fn['cq'] == 'std::array'
    if k == 'opc':
        op = e['op']
        l = en.lv(args[0])
        if op == '[]':
            i = en.ev(args[1])
            if en.dead():
                return UNDEF
            return ('loc', map1(lambda x: idx(x, i), l))
        if op == '=':
            src = en.lv(args[1]) if is_move(args[1]) else None
            v = en.ev(args[1]) if src is None else en.rd(src)
            if en.dead():
                return UNDEF
            wr_vec(en, l, v, e)
            if src is not None and src is not l:
                emptied(en, src)
            return ('loc', l)
        return NONE
    l = en.recv(e)
    t = en.ty(e['ob'])
    if en.dead():
        return UNDEF
    if l.op == 'ite':
        l = restrict(l, en.st.pc)
        if l.op == 'ite':
            return NONE
    size = lambda: en.size_of(l, t)
    if n in ('size',):
        return size()
    if n == 'empty':
        return eq(size(), ZERO, True)
    if n == 'at':
        i = en.ev(args[0])
        if en.dead():
            return UNDEF
        en.event('call', e, name='at', fn=fn, recv=l, args=[(None, i)])
        return ('loc', idx(l, i))
    if n == 'front':
        return ('loc', idx(l, ZERO))
    if n == 'back':
        return ('loc', idx(l, isub(size(), ONE)))
    if n == 'data':
        return addr(idx(l, ZERO))
    if n in ('begin', 'cbegin'):
        return addr(idx(l, ZERO))
    if n in ('end', 'cend'):
        return addr(idx(l, size()))
    if n in ('rbegin', 'crbegin'):
        return raw('rit', addr(idx(l, isub(size(), ONE))))
    if n in ('rend', 'crend'):
        return raw('rit', addr(idx(l, c(-1))))
    if n in ('push_back', 'emplace_back'):
        sz = size()
        cell = idx(l, sz)
        if n == 'push_back' or len(args) == 1:
            a = args[0]
            v = en.ev(a)
            if en.dead():
                return UNDEF
            # value type pointer / record
            en.wr(cell, v, e)
        else:
            av = _argv(en, e)
            if en.dead():
                return UNDEF
            en.wr(cell, raw('tup', *av), e)
        en.event('call', e, name='push_back', fn=fn, recv=l, args=[(cell, en.st.read(cell))])
        en.st.write(vsz(l), iadd(sz, ONE))
        return ('loc', cell)
    if n == 'pop_back':
        en.event('call', e, name='pop_back', fn=fn, recv=l)
        en.st.write(vsz(l), isub(size(), ONE))
        return UNDEF
    if n == 'clear':
        en.event('call', e, name='clear', fn=fn, recv=l)
        en.st.write(l, app('emptyvec'))
        en.st.write(vsz(l), ZERO)
        return UNDEF
    if n == 'reserve' or n == 'shrink_to_fit':
        _argv(en, e)
        return UNDEF
    if n in ('resize', 'assign'):
        av = _argv(en, e)
        if en.dead():
            return UNDEF
        en.event('call', e, name=n, fn=fn, recv=l, args=[(None, v) for v in av])
        old = en.st.read(l)
        if n == 'assign' or len(av) == 1 and old.op == 'app' and old.a[0] == 'emptyvec':
            en.st.write(l, app('vec', *av))
        else:
            en.st.write(l, app('resized', old, *av))
        en.st.write(vsz(l), av[0])
        return UNDEF
    if n in ('fill',):
        v = en.ev(args[0])
        if en.dead():
            return UNDEF
        en.event('store', e, loc=idx(l, STAR), val=v)
        en.st.write(l, app('Const', v))
        return UNDEF
    if n == 'swap':
        l2 = en.lv(args[0])
        a, b = en.rd(l), en.rd(l2)
        wr_vec(en, l, b, e)
        wr_vec(en, l2, a, e)
        return UNDEF
    if n in ('insert', 'emplace', 'erase'):
        av = _argv(en, e)
        if en.dead():
            return UNDEF
        ev = en.event('call', e, name=n, fn=fn, recv=l, args=[(None, v) for v in av])
        en.st.havoc(l, ('hv', ev.id))
        return raw('ret', ev.id)
    if n == 'capacity' or n == 'max_size':
        return raw('ret', en.evid('cap', e))
    return NONE


def wr_vec(en, l, v, e):
    en.wr(l, v, e)


def mapm(en, e, fn):
    n, k = fn['n'], e['k']
    args = e['as']
    if k == 'opc':
        if e['op'] == '[]':
            l = en.lv(args[0])
            i = en.ev(args[1])
            if en.dead():
                return UNDEF
            en.event('call', e, name='map[]', fn=fn, recv=l, args=[(None, i)])
            return ('loc', idx(l, i))
        if e['op'] == '=':
            l, v = en.lv(args[0]), en.ev(args[1])
            if not en.dead():
                en.wr(l, v, e)
            return ('loc', l)
        return NONE
    l = en.recv(e)
    if en.dead():
        return UNDEF
    if n == 'at':
        i = en.ev(args[0])
        if en.dead():
            return UNDEF
        en.event('call', e, name='at', fn=fn, recv=l, args=[(None, i)])
        return ('loc', idx(l, i))
    if n in ('find', 'count', 'contains'):
        i = en.ev(args[0])
        if en.dead():
            return UNDEF
        if n == 'find':
            return raw('mapit', l, i, en.rd(fld(l, '#ver')))
        return ite(mk(raw('haskey', l, i, en.rd(fld(l, '#ver'))), TRUE, FALSE), ONE, ZERO)
    if n in ('end', 'cend'):
        return addr(idx(l, en.rd(vsz(l))))      # positions: entry i of the iteration order is element i
    if n in ('begin', 'cbegin'):
        return addr(idx(l, ZERO))
    if n == 'size':
        return en.rd(vsz(l))
    if n == 'empty':
        return eq(en.rd(vsz(l)), ZERO, True)
    if n in ('emplace', 'insert', 'insert_or_assign', 'try_emplace'):
        av = []
        for a in args:
            av.append(en.ev(a))
        if en.dead():
            return UNDEF
        ev = en.event('call', e, name=n, fn=fn, recv=l, args=[(None, v) for v in av])
        if len(av) >= 2:
            en.st.write(idx(l, av[0]), av[1] if len(av) == 2 else raw('tup', *av[1:]))
            en.st.write(fld(l, '#ver'), raw('ret', ev.id))
        else:
            en.st.havoc(l, ('hv', ev.id))
        return raw('ret', ev.id, addr(l))
    if n in ('clear', 'erase'):
        av = _argv(en, e)
        ev = en.event('call', e, name=n, fn=fn, recv=l, args=[(None, v) for v in av])
        en.st.havoc(l, ('hv', ev.id))
        return UNDEF
    return NONE


def iterm(en, e, fn):
    k = e['k']
    args = e['as']
    if k == 'opc':
        op = e['op']
        if op in ('++', '--'):
            l = en.lv(args[0])
            v = en.rd(l)

            def stepv(x):
                d = ONE if op == '++' else c(-1)
                if x.op == 'rit':
                    return raw('rit', padd(x.a[0], iscale(d, -1)))
                return padd(x, d)
            nv = map1(stepv, v)
            en.wr(l, nv, e)
            return v if len(args) == 2 else ('loc', l)
        v = en.ev(args[0])
        if en.dead():
            return UNDEF
        if op == '*':
            return ('loc', itl(v))
        if op == '->':
            if v.op in ('mapit', 'mu', 'mapbegin'):
                return addr(raw('entry', v))
            return addr(itl(v))
        if op in ('+', '-') and len(args) == 2 and en.ty(args[1])['k'] == 'int':
            i = en.ev(args[1])
            i = i if op == '+' else iscale(i, -1)
            if v.op == 'rit':
                return raw('rit', padd(v.a[0], iscale(i, -1)))
            return padd(v, i)
        if op == '[]':
            i = en.ev(args[1])
            if v.op == 'rit':
                return ('loc', itl(raw('rit', padd(v.a[0], iscale(i, -1)))))
            return ('loc', itl(padd(v, i)))
        if op == '=':
            l = en.lv(args[0])
            en.wr(l, en.ev(args[1]), e)
            return ('loc', l)
        if op in ('+=', '-='):
            l = en.lv(args[0])
            i = en.ev(args[1])
            nv = padd(en.rd(l), i if op == '+=' else iscale(i, -1))
            en.wr(l, nv, e)
            return ('loc', l)
    if k == 'mcl' and fn['n'] == 'base':
        return en.rd(en.recv(e))
    return NONE


def itl(v):
    if v.op == 'ite':
        return map1(itl, v)
    if v.op == 'rit':
        return itl(v.a[0])
    if v.op == 'addr':
        return v.a[0]
    if v.op == 'mapit':
        return raw('entry', v)
    return deref(v)


def string(en, e, fn):
    n, k = fn['n'], e['k']
    args = e['as']
    if k == 'opc' and e['op'] == '=':
        l = en.lv(args[0])
        v = en.ev(args[1])
        if not en.dead():
            en.wr(l, v, e)
        return ('loc', l)
    if k == 'opc' and e['op'] == '+=' or n in ('append', 'push_back', 'insert', 'replace', 'erase', 'clear', 'resize', 'assign'):
        l = en.lv(args[0]) if k == 'opc' else en.recv(e)
        av = [en.ev(a) for a in (args[1:] if k == 'opc' else args)]
        if not en.dead():
            en.wr(l, app('str.' + n, en.rd(l), *av), e)
        return ('loc', l)
    if k == 'opc' and e['op'] == '[]':
        l = en.lv(args[0])
        i = en.ev(args[1])
        return ('loc', idx(l, i))
    v = en.rd(en.recv(e)) if k == 'mcl' else en.ev(args[0])
    av = [en.ev(a) for a in (args if k == 'mcl' else args[1:])]
    if en.dead():
        return UNDEF
    if n == 'c_str' or n == 'data':
        return v
    return app('str.' + n, v, *av)


def atomic(en, e, fn):
    n, k = fn['n'], e['k']
    args = e['as']
    if k == 'opc':
        l = en.lv(args[0])
        op = e['op']
        if op == '=':
            v = en.ev(args[1])
            en.wr(l, v, e)
            return v
        if op in ('++', '--'):
            o = en.rd(l)
            nv = iadd(o, c(1 if op == '++' else -1))
            en.wr(l, nv, e)
            return nv if len(args) == 1 else o
        if op in ('+=', '-='):
            o = en.rd(l)
            b = en.ev(args[1])
            nv = iadd(o, b) if op == '+=' else isub(o, b)
            en.wr(l, nv, e)
            return nv
    l = en.recv(e)
    if en.dead():
        return UNDEF
    if n in ('load',) or n.startswith('operator ') or fn.get('conv'):
        if l in en.volatile:
            # another thread may change it at any time: every read is a fresh value
            ev = en.event('vread', e, name='load', loc=l)
            ev.val = raw('vol', ev.seq)
            return ev.val
        return en.rd(l)
    if n == 'store':
        en.wr(l, en.ev(args[0]), e)
        return UNDEF
    if n == 'exchange':
        o = en.rd(l)
        en.wr(l, en.ev(args[0]), e)
        return o
    if n in ('fetch_add', 'fetch_sub'):
        o = en.rd(l)
        b = en.ev(args[0])
        en.wr(l, iadd(o, b) if n == 'fetch_add' else isub(o, b), e)
        return o
    return NONE


def stdop(en, e, fn):
    op = fn.get('op')
    args = e['as']
    if op in ('==', '!=') and len(args) == 2:
        a, b = en.ev(args[0]), en.ev(args[1])
        if en.dead():
            return UNDEF

        def f(x, y):
            for p, q in ((x, y), (y, x)):
                if p.op == 'mapit' and q.op == 'addr' and q.a[0].op == 'idx' and q.a[0].a[0] is p.a[0] and q.a[0].a[1] is not ZERO:
                    return NOT(mk(raw('haskey', p.a[0], p.a[1], p.a[2]), TRUE, FALSE))
            if x.op == 'rit' and y.op == 'rit':
                return f(x.a[0], y.a[0])
            if x.op == 'addr' and y.op == 'addr' and x.a[0].op == 'idx' and y.a[0].op == 'idx' and x.a[0].a[0] is y.a[0].a[0] and len(x.a[0].a) == 2:
                return eq(x.a[0].a[1], y.a[0].a[1], True)
            return eq(x, y)
        r = map2(f, a, b)
        return r if op == '==' else NOT(r)
    if op == '<<':
        v = []
        for a in args:
            v.append(en.ev(a))
            if en.dead():
                return UNDEF
        l = None
        # string shift on arithmetic types never reaches here
        en.event('call', e, name='print', fn=fn, args=[(None, x) for x in v], extra='print')
        return ('loc', en.lv(args[0])) if args[0].get('lv') and args[0]['k'] == 'ref' else v[0] if False else ('loc', raw('glob', 'stream'))
    if op in ('<', '>', '<=', '>='):
        a, b = en.ev(args[0]), en.ev(args[1])
        if en.dead():
            return UNDEF
        from engine import ptrcmp
        return ptrcmp(op, a, b)
    if op in ('+',):
        return app('str+', *_argv(en, e))
    if op == '-' and len(args) == 2:
        a, b = _argv(en, e)
        if a.op == 'addr' and b.op == 'addr':
            return pdiff(a, b)
        return app('op-', a, b)
    return NONE


# ------------------------------------------------------------------ construction
def construct(en, e, fn, l):
    q = fn['cq']
    args = e['as']
    if isq(q, SMART):
        if not args:
            en.st.write(l, NULL)
            return
        src = None
        a = args[0]
        if is_move(a):
            src = en.lv(a)
            v = en.rd(src) if not en.dead() else None
        else:
            v = en.ev(a)
        if en.dead():
            return
        if v.op == 'app' and v.a[0] == 'zeroinit':
            v = NULL
        if src is not None and src is not l:
            en.st.write(src, NULL)
        en.st.write(l, v)
        return
    if q in ('std::function', 'std::packaged_task'):
        if not args:
            en.st.write(l, NULL)
            return
        v = en.ev(args[0])
        if not en.dead():
            if q == 'std::packaged_task':
                en.event('ctor', e, name=q, fn=fn, recv=l, args=[(None, v)])
            en.st.write(l, v)
        return
    if q in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock'):
        if not args:
            en.st.write(fld(l, '#owns'), FALSE)
            return
        if fn.get('mc'):
            src = en.lv(args[0])
            for f in ('#m', '#owns'):
                en.st.write(fld(l, f), en.rd(fld(src, f)))
            en.st.write(fld(src, '#owns'), FALSE)
            return
        m = en.lv(args[0])
        if en.dead():
            return
        en.st.write(fld(l, '#m'), addr(m))
        deferred = len(args) > 1
        if deferred:
            en.ev(args[1])
        en.st.write(fld(l, '#owns'), FALSE if deferred and q == 'std::unique_lock' else TRUE)
        if not (deferred):
            en.lock(m, e)
        return
    if q == 'std::basic_string':
        if not args:
            en.st.write(l, s(''))
            return
        v = [en.ev(a) for a in args]
        if not en.dead():
            en.st.write(l, v[0] if len(v) == 1 or v[0].op == 's' or fn.get('cc') or fn.get('mc') or len(v) == 2 and v[1].op == 'app' else app('str', *v))
        return
    if q in ('std::vector', 'std::deque', 'std::list'):
        if fn.get('cc') or fn.get('mc'):
            src = en.lv(args[0])
            if not en.dead():
                en.st.write(l, en.rd(src))
                if fn.get('mc') and is_move(args[0]) and src is not l:
                    emptied(en, src)
            return
        v = [en.ev(a) for a in args]
        if en.dead():
            return
        v = [x for x in v if not (x.op == 'app' and 'allocator' in str(x.a[0]))]
        if not v or v[0].op == 'app' and 'allocator' in str(v[0].a):
            en.st.write(l, app('emptyvec'))
            en.st.write(fld(l, '#size'), ZERO)
        elif v[0].op == 'tup':
            en.st.write(l, v[0])
            en.st.write(fld(l, '#size'), c(len(v[0].a)))
        elif en.ty(args[0])['k'] == 'int':
            en.st.write(l, app('vec', *v))
            en.st.write(fld(l, '#size'), v[0])
        else:
            en.st.write(l, app('ctor:vec', *v))
        return
    if q == 'std::array':
        if fn.get('cc') or fn.get('mc'):
            src = en.lv(args[0])
            if not en.dead():
                en.st.write(l, en.rd(src))
        return
    if q.startswith('Eigen::'):
        if not args:
            en.st.write(l, app('Uninit'))
            note_dims(en, l, en.ty(e))
            return
        t = en.ty(e)
        note_dims(en, l, t)
        v = [en.ev(a) for a in args]
        if en.dead():
            return
        d = sdims(t)
        if len(v) == 1:
            ta = en.ty(args[0])
            if ta['k'] in ('int',) and q in ('Eigen::Matrix', 'Eigen::Array'):
                v0 = app('Uninit', v[0])
            elif q in ('Eigen::LLT', 'Eigen::LDLT', 'Eigen::PartialPivLU'):
                v0 = app(q.split('::')[-1], v[0])
            else:
                v0 = v[0]
            en.st.write(l, v0)
            return
        if q == 'Eigen::Matrix':
            if d[1] == 1 and d[0] == len(v) or d[1] == 1 and len(v) in (3, 4):
                en.st.write(l, raw('tup', *v))
                return
            if len(v) == 2:
                if en.ty(args[0])['k'] == 'int':
                    en.st.write(l, app('Uninit', *v))
                    return
        en.st.write(l, app('ctor:' + q, *v))
        return
    if q.startswith('std::') and (fn.get('cc') or fn.get('mc')) and args:
        src = en.lv(args[0])
        if not en.dead():
            en.st.write(l, en.rd(src))
        return
    if q in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set') and not args:
        en.st.write(l, app('emptymap'))
        en.st.write(fld(l, '#size'), ZERO)
        return
    if '__normal_iterator' in q and len(args) == 1:
        v = en.ev(args[0])
        if not en.dead():
            en.st.write(l, v)
        return
    return NONE


def is_move(a):
    while a.get('k') in ('cast', 'tmp', 'mat', 'paren') and isinstance(a.get('a'), dict):
        a = a['a']
    return a.get('k') in ('cal', 'call') and a.get('fn', {}).get('q') == 'std::move'


def emptied(en, src):
    """a vector that was moved from is empty"""
    for p, x in (cases(src) if src.op == 'ite' else [(TRUE, src)]):
        if x.op in ('var', 'obj', 'fld', 'idx', 'deref') and src.op != 'ite':
            en.st.write(x, app('emptyvec'))
            en.st.write(fld(x, '#size'), ZERO)
