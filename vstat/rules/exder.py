"""C37: the example models, costs and constraints give the exact derivatives of their own evaluation.

The values written by Evaluate are differentiated formally (sum, product, quotient, sine and cosine rules) and compared
entry by entry with what Jacobian, Gradient and Hessian write, as identities of real arithmetic."""
import facts
from rules.al2 import *

EX = 'altro::examples::'


class Stuck(Exception):
    """an expression the differentiation rules do not cover"""


def arr(k):
    return raw('obj', 'arg%d' % k)


def has(t, srcs):
    return contains(t, lambda y: y.op in ('obj', 'init') and any(y is s or y.op == 'init' and y.a and y.a[-1] is s for s in srcs))


def elem(t):
    """(argument index, element index) when t is an element of an argument"""
    l = t.a[-1] if t.op == 'init' else None
    if isinstance(l, T) and l.op == 'idx' and len(l.a) == 2 and isinstance(l.a[0], T) and l.a[0].op == 'obj' and str(l.a[0].a[0]).startswith('arg'):
        return l.a[0], l.a[1]
    if t.op == 'sel' and t.a[1][0] == 'i' and len(t.a[1]) == 2:
        b = t.a[0]
        if b.op == 'init' and b.a[-1].op == 'obj':
            return b.a[-1], t.a[1][1]
    return None


def atoms(t, srcs, out):
    e = elem(t)
    if e is not None:
        if e[0] in srcs:
            out.setdefault((e[0], e[1]), t)
        return
    for c in kids(t):
        atoms(c, srcs, out)


def kids(t):
    for c in t.a:
        if isinstance(c, T):
            yield c
        elif isinstance(c, tuple):
            for d in c:
                if isinstance(d, T):
                    yield d
                elif isinstance(d, tuple):
                    for e in d:
                        if isinstance(e, T):
                            yield e


def depends(t, x):
    o = {}
    atoms(t, (x[0],), o)
    return x in o


def diff(t, x):
    """formal partial derivative of the scalar t with respect to the element x"""
    e = elem(t)
    if e is not None and e == x:
        return num(1)
    if not depends(t, x):
        return num(0)
    o = t.op
    if o == '+':
        return tadd(diff(t.a[0], x), diff(t.a[1], x))
    if o == '-':
        return tsub(diff(t.a[0], x), diff(t.a[1], x))
    if o == 'neg':
        return tneg(diff(t.a[0], x))
    if o in ('*', 'i*'):
        return tadd(tmul(diff(t.a[0], x), t.a[1]), tmul(t.a[0], diff(t.a[1], x)))
    if o == '/' and not depends(t.a[1], x):
        return raw('/', diff(t.a[0], x), t.a[1])
    if o == 'lin':
        r = num(0)
        for y, q in t.a[0]:
            r = tadd(r, tmul(num(q), diff(y, x)))
        return r
    if o == 'app' and len(t.a) == 2 and t.a[0] in ('sin', 'cos'):
        d = diff(t.a[1], x)
        return tmul(app('cos', t.a[1]), d) if t.a[0] == 'sin' else tneg(tmul(app('sin', t.a[1]), d))
    raise Stuck(show(t)[:200])


def num(q):
    return c(q)


def tadd(a, b):
    return b if a is ZERO else a if b is ZERO else raw('+', a, b)


def tsub(a, b):
    return a if b is ZERO else raw('-', a, b)


def tneg(a):
    return a if a is ZERO else raw('neg', a)


def tmul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    return b if a is ONE else a if b is ONE else raw('*', a, b)


class Cells:
    """entries of one output, by canonical index"""

    def __init__(self, R, en, out, dims):
        self.R, self.en, self.out = R, en, out
        self.cells = {}           # (index keys) -> (index terms, value, event)
        self.base = None          # None (caller's), 'zero' or a whole value
        self.open = []            # writes that cannot be placed
        self.mu = {}
        self.dims = dims
        for e in en.events:
            if e.kind != 'store' or e.loc is None or not contains(e.loc, lambda y: y is out):
                continue
            if e.loc is out:
                self.cells = {}
                v = e.val
                if not self.plain(e):
                    self.open.append(e)
                self.base = v
            elif e.loc.op == 'idx' and e.loc.a[0] is out:
                idx = [self.canon(i) for i in e.loc.a[1:]]
                val = self.canon(e.val)
                if any(i is None for i in idx) or val is None or not self.plain(e):
                    self.open.append(e)
                    continue
                self.cells[tuple(i.id for i in idx)] = (idx, val, e)
            else:
                self.open.append(e)

    def plain(self, e):
        """the write happens for every value of the counters of the loops around it"""
        for k in e.loops:
            L = self.en.loops[k]
            if L.main is None or L.main[2] not in (1, -1):
                return False
        return always_all(self.en, e)

    def canon(self, t):
        """loop counters named by the range they run over"""
        t = self.dims(t)
        ms = []
        for y in walk(t):
            if y.op == 'mu' and y not in ms:
                ms.append(y)
        for m in ms:
            L = self.en.loops.get(m.a[0])
            if L is None or L.main is None or L.main[0] is not m or L.lo is None or L.hi is None or L.main[2] not in (1, -1):
                return None
            t = subst(t, {m.id: raw('range', L.lo, self.dims(L.hi))})
        return t


RING = dict(scalar=lambda t: True)


def unk(t):
    return contains(t, lambda y: y.op in UNRES)


def entries(R, name, want, got, hesscols=None):
    """want: {index: (value, where)}; the entries written are exactly those, and no other entry is non-zero"""
    nf = NF(**RING)
    g = {}
    for k, (idx, v, e) in got.cells.items():
        g[tuple(nf.key(nf.nf(i)) for i in idx)] = (idx, v, e)
    w = {}
    for idx, v in want:
        k = tuple(nf.key(nf.nf(i)) for i in idx)
        w[k] = (idx, tadd(w[k][1], v) if k in w else v)
    if got.open or got.base is not None and not (got.base.op == 'app' and got.base.a[0] == 'Zero'):
        return R.ob(name, None, got.open[0] if got.open else None, 'a write that cannot be placed')
    for k in [k for k in w if k not in g and nf.nf(w[k][1])]:
        for k2 in g:
            if k2 not in w and k2[0] is k[0] and nf.eq(g[k2][1], w[k][1]) and not unk(w[k][1]):
                R.ob('a derivative is written to the column of its input', False, g[k2][2], 'the derivative of entry (%s) is written to (%s)' % (
                    ', '.join(show(i) for i in w[k][0]), ', '.join(show(i) for i in g[k2][0])))
                del g[k2], w[k]
                break
    for k, (idx, v) in w.items():
        d = '(%s)' % ', '.join(show(i) for i in idx)
        zero = not nf.nf(v)
        if k in g:
            gv = g[k][1]
            if nf.eq(gv, v):
                R.ob(name, True, g[k][2], 'entry ' + d)
            else:
                R.ob(name, None if unk(gv) or unk(v) else False, g[k][2], 'entry %s is %s, the derivative is %s' % (d, show(gv)[:200], show(v)[:200]))
        elif not zero:
            R.ob(name, None if unk(v) else False, got.en.root, 'entry %s is not written; the derivative is %s' % (d, show(v)[:200]))
    for k, (idx, v, e) in g.items():
        if k not in w and nf.nf(v):
            d = '(%s)' % ', '.join(show(i) for i in idx)
            R.ob(name, None if unk(v) or any(unk(i) for i in idx) else False, e, 'entry %s is %s, but the value there does not depend on that input' % (d, show(v)[:200]))


def statedim(R, cls):
    """the declared state dimension; that of the argument where the class leaves it open"""
    for f in R.P.by_q.get(EX + cls + '::StateDimension', ()):
        n = R.run(None, fn=f).ret
        if n is not None and not unk(n):
            return n
    return None


NAME = 'the Jacobian holds the partial derivatives of the evaluation'


def sized(R, cls, *ens):
    n = statedim(R, cls)
    rows = [t for en in ens for t in sizes(en)]

    def dims(t):
        return subst(t, {r.id: n for r in rows}) if n is not None and n is not ZERO else t
    return (n if n is not None and n is not ZERO else raw('init', raw('fld', arr(0), '#rows'))), dims


def sizes(en):
    out = {}
    for e in en.events:
        for t in (e.val, e.loc):
            if isinstance(t, T):
                for y in walk(t):
                    if y.op == 'init' and isinstance(y.a[-1], T) and y.a[-1].op == 'fld' and y.a[-1].a[0] is arr(0) and y.a[-1].a[-1] in ('#rows', '#size'):
                        out[y.id] = y
    return list(out.values())


def element(R, cls, outk):
    """Jacobian against Evaluate, entry by entry"""
    ev = R.run(EX + cls + '::Evaluate')
    jc = R.run(EX + cls + '::Jacobian')
    n, dims = sized(R, cls, ev, jc)
    F = Cells(R, ev, arr(outk), dims)
    J = Cells(R, jc, arr(outk), dims)
    if F.open or F.base is not None:
        R.ob(NAME, None, F.open[0] if F.open else ev.root, 'the evaluation is not written entry by entry')
        return None
    want = []
    try:
        for idx, v, e in F.cells.values():
            at = {}
            atoms(v, (arr(0), arr(1)), at)
            for (o, j) in at:
                want.append(((idx[0], j if o is arr(0) else iadd(n, j)), diff(v, (o, j))))
    except Stuck as x:
        R.ob(NAME, None, ev.root, 'no differentiation rule for %s' % x)
        return None
    entries(R, NAME, want, J)
    return F, n, dims


def second(R, cls, F, n, dims, outk, bk):
    """Hessian of b'f against the evaluation"""
    he = R.run(EX + cls + '::Hessian')
    H = Cells(R, he, arr(outk), dims)
    want = {}
    try:
        for idx, v, e in F.cells.values():
            at = {}
            atoms(v, (arr(0), arr(1)), at)
            col = {x: x[1] if x[0] is arr(0) else iadd(n, x[1]) for x in at}
            for x in at:
                for y in at:
                    d = diff(diff(v, x), y)
                    if d is ZERO:
                        continue
                    k = (col[x], col[y])
                    t = tmul(raw('init', raw('idx', arr(bk), idx[0])), d)
                    want[k] = tadd(want[k], t) if k in want else t
    except Stuck as x:
        return R.ob('the Hessian holds the second derivatives of the evaluation', None, he.root, 'no differentiation rule for %s' % x)
    entries(R, 'the Hessian holds the second derivatives of the evaluation', list(want.items()), H)


# ------------------------------------------------------------------ vector and matrix form
def written(en, k):
    """the whole value of an output at the exit, None when it is written in parts"""
    for e in en.events:
        if e.kind == 'store' and e.loc is not None and e.loc is not arr(k) and contains(e.loc, lambda y: y is arr(k)):
            return None
    v = en.final.read(arr(k))
    return None if v is None or unk(v) or v.op == 'ite' else v


def vdiff(t, src, delta):
    """directional derivative of a vector or scalar expression along delta in the argument src"""
    if t.op == 'init' and t.a[-1] is src:
        return delta
    if not contains(t, lambda y: y is src):
        return ZERO
    o = t.op
    if o in ('+', '-'):
        a, b = vdiff(t.a[0], src, delta), vdiff(t.a[1], src, delta)
        return tadd(a, b) if o == '+' else (a if b is ZERO else tneg(b) if a is ZERO else raw('-', a, b))
    if o == 'neg':
        return tneg(vdiff(t.a[0], src, delta))
    if o == '*':
        a, b = vdiff(t.a[0], src, delta), vdiff(t.a[1], src, delta)
        return tadd(ZERO if a is ZERO else raw('*', a, t.a[1]), ZERO if b is ZERO else raw('*', t.a[0], b))
    if o == 'app' and t.a[0] == 'E.dot':
        a, b = vdiff(t.a[1], src, delta), vdiff(t.a[2], src, delta)
        return tadd(ZERO if a is ZERO else app('E.dot', a, t.a[2]), ZERO if b is ZERO else app('E.dot', t.a[1], b))
    if o == 'app' and t.a[0] == 'transpose':
        a = vdiff(t.a[1], src, delta)
        return a if a is ZERO else app('transpose', a)
    if o == 'app' and t.a[0] == 'E.squaredNorm':
        a = vdiff(t.a[1], src, delta)
        return a if a is ZERO else raw('*', c(2), app('E.dot', t.a[1], a))
    raise Stuck(show(t)[:200])


def goal(R):
    """x - xf has the Jacobian [I 0]"""
    ev, jc = R.run(EX + 'GoalConstraint::Evaluate'), R.run(EX + 'GoalConstraint::Jacobian')
    v = written(ev, 2)
    x, u = arr(0), arr(1)
    if v is None:
        return element(R, 'GoalConstraint', 2)
    try:
        dx, du = vdiff(v, x, raw('delta', 'x')), vdiff(v, u, raw('delta', 'u'))
    except Stuck as s:
        return R.ob(NAME, None, ev.root, 'no differentiation rule for %s' % s)
    nf = NF()
    unit = nf.eq(dx, raw('delta', 'x')) and du is ZERO
    j = written(jc, 2)
    if not unit or j is None:
        return R.ob(NAME, None, jc.root, 'not of the form x - constant')
    R.ob(NAME, j.op == 'app' and j.a[0] == 'Identity', jc.root, 'the constraint is x minus a constant; the Jacobian is %s' % show(j)[:200])


def quadratic(R):
    q = EX + 'QuadraticCost::'
    ev, gr, he = R.run(q + 'Evaluate'), R.run(q + 'Gradient'), R.run(q + 'Hessian')
    sym = lambda t: t.op == 'init' and t.a[-1].op == 'fld' and t.a[-1].a[-1] in symmetric(R)
    # factors: vectors and matrices do not commute; products of two vectors are scalars
    sc = lambda t: True if t.op == 'init' and t.a[-1].op == 'fld' and t.ty is not None and t.ty.get('k') == 'float' else None
    D = {'x': raw('delta', 'x'), 'u': raw('delta', 'u')}
    A = {'x': arr(0), 'u': arr(1)}
    g = {'x': written(gr, 2), 'u': written(gr, 3)}
    try:
        for k in 'xu':
            if ev.ret is None or unk(ev.ret) or g[k] is None:
                R.ob('the gradient is the derivative of the cost', None, gr.root)
                continue
            nf = NF(sym=sym, scalar=sc)
            R.eqv('the gradient is the derivative of the cost', nf, app('E.dot', g[k], D[k]), vdiff(ev.ret, A[k], D[k]), gr.root, 'with respect to ' + k)
        for (a, b, k) in (('x', 'x', 2), ('x', 'u', 3), ('u', 'u', 4)):
            h = written(he, k)
            if h is None or g[a] is None:
                R.ob('the Hessian is the derivative of the gradient', None, he.root)
                continue
            nf = NF(sym=sym, scalar=sc)
            R.eqv('the Hessian is the derivative of the gradient', nf, raw('*', h, D[b]), vdiff(g[a], A[b], D[b]), he.root, 'block %s%s' % (a, b))
    except Stuck as s:
        R.ob('the gradient is the derivative of the cost', None, ev.root, 'no differentiation rule for %s' % s)


def symmetric(R):
    """members the class requires to be symmetric: compared with their own transpose by a check of the class"""
    k = '_symmetric'
    r = getattr(R, k, None)
    if r is None:
        r = set()
        for f in R.P.by_q.get(EX + 'QuadraticCost::Validate', ()):
            en = R.run(None, fn=f)
            for e in en.events:
                if e.kind != 'assert' or not isinstance(e.val, T):
                    continue
                for y in walk(e.val):
                    if y.op == 'app' and str(y.a[0]).endswith('isApprox') and len(y.a) >= 3:
                        a, b = y.a[1], y.a[2]
                        if isinstance(b, T) and b.op == 'app' and b.a[0] == 'transpose' and b.a[1] is a and a.op == 'init' and a.a[-1].op == 'fld':
                            r.add(a.a[-1].a[-1])
        setattr(R, k, r)
    return r


@rule('C37', 'formal differentiation of the evaluation over the syntax tree values (sum, product, sine and cosine rules) and normal-form comparison with what Jacobian, Gradient and Hessian write, entry by entry')
def c37(R):
    def have(cls):
        return bool(R.P.by_q.get(EX + cls + '::Evaluate'))
    for cls, o in (('Unicycle', 3), ('TripleIntegrator', 3)):
        if have(cls):
            r = R.sub(element, cls, o)
            if r:
                R.sub(second, cls, r[0], r[1], r[2], 4, 3)
    for cls in ('ControlBound', 'CircleConstraint'):
        if have(cls):
            R.sub(element, cls, 2)
    if have('GoalConstraint'):
        R.sub(goal)
    if have('QuadraticCost'):
        R.sub(quadratic)
