"""C35: integrator Jacobians as exact derivatives of the integrator steps."""
from rules.al2 import *
import facts
import engine
from rulelib import R as _R  # noqa

INT = 'altro::problem::ExplicitIntegrator'
DYNF = ('Evaluate', 'Jacobian')
X, U, TM, HS, DYN = raw('obj', 'arg1'), raw('obj', 'arg2'), raw('obj', 'arg3'), raw('obj', 'arg4'), raw('obj', 'arg0')
NX, NU = raw('nx'), raw('nu')


class Stuck(Exception):
    """an expression the differentiation rules do not cover"""


def stage(nf, ins):
    """canonical stage point of a dynamics call"""
    return tuple(nf.key(nf.nf(t)) for t in ins)


def inputs(t):
    a = t.a[-1]
    return tuple(a) if isinstance(a, tuple) else None


class BNF(NF):
    """normal form of the two blocks (state, control) of an n x (n+m) expression"""

    def __init__(self, dims, **kw):
        NF.__init__(self, **kw)
        self.dims = dims
        self.badblocks = []

    def jac(self, t, which):
        ins = inputs(t)
        if ins is None or len(ins) != 3:
            raise Stuck(show(t)[:200])
        return self.atom(raw('dfd' + which, stage(self, ins)), True)

    def which(self, b):
        """state or control block of an n x (n+m) matrix"""
        if b[0] != 'b':
            return None
        r, c, nr, nc = [self.dims(x) for x in b[1:]]
        if r is not ZERO or nr is not NX:
            return None
        if c is ZERO and nc is NX:
            return 'x'
        if c is NX and nc is NU:
            return 'u'
        return None

    def _nf(self, t):
        if t.op == 'sel':
            w = self.which(t.a[1])
            if w is not None:
                return self.block(t.a[0], w)
            if is_jac(t.a[0]):
                raise Misread('the block %s of a dynamics Jacobian is neither its state nor its control part' % (show_block(t.a[1]),))
        return NF._nf(self, t)

    def block(self, t, w):
        """normal form of block w of t"""
        o = t.op
        if is_jac(t):
            return self.jac(t, w)
        if o == 'agg':
            hit = None
            for addr_, v in t.a[1]:
                p = addr_[0] if len(addr_) == 1 else None
                b = self.which(p) if p is not None else None
                if b is None:
                    raise Stuck('block %s' % (show_block(p) if p else '?'))
                if b == w:
                    hit = v
            return self.nf(hit) if hit is not None else self.block(t.a[0], w)
        if o in ('+', '-'):
            return self.add(self.block(t.a[0], w), self.block(t.a[1], w), 1 if o == '+' else -1)
        if o == 'neg':
            return self.scale(self.block(t.a[0], w), -1)
        if o == '*':
            if self.scalar(t.a[0]):
                return self.mul(self.nf(t.a[0]), self.block(t.a[1], w))
            if self.scalar(t.a[1]):
                return self.mul(self.block(t.a[0], w), self.nf(t.a[1]))
            return self.mul(self.nf(t.a[0]), self.block(t.a[1], w))
        if o == '/':
            return self.mul(self.block(t.a[0], w), self.inv(self.nf(t.a[1])))
        if o == 'app' and t.a[0] == 'Identity':
            if len(t.a) == 3 and self.dims(t.a[1]) is NX and self.dims(t.a[2]) is not NX:
                return {((), ()): Fraction(1)} if w == 'x' else {}
            raise Stuck(show(t))
        if o == 'app' and t.a[0] == 'Zero':
            return {}
        raise Stuck(show(t)[:200])


class Misread(Exception):
    pass


def show_block(b):
    return '(%s)' % ', '.join(show(x) if isinstance(x, T) else str(x) for x in b)


def is_jac(t):
    return t.op == 'out' and t.a[0] == 'Jacobian'


def is_eval(t):
    return t.op == 'out' and t.a[0] == 'Evaluate'


def dimmap(t):
    """replace every spelling of the two dimensions"""
    if not isinstance(t, T):
        return t
    m = {}
    for x in walk(t):
        s = None
        if x.op == 'app' and isinstance(x.a[0], str) and x.a[0].split('::')[-1] in ('V:StateDimension', 'StateDimension') and len(x.a) == 2:
            s = NX
        elif x.op == 'app' and isinstance(x.a[0], str) and x.a[0].split('::')[-1] in ('V:ControlDimension', 'ControlDimension') and len(x.a) == 2:
            s = NU
        elif x.op == 'init' or x.op == 'fld':
            pass
        if s is not None:
            m[x.id] = s
    for a, s in ((X, NX), (U, NU)):
        for f in ('#rows', '#size'):
            m[S0.read(fld(a, f)).id] = s
    m[S0.read(fld(raw('obj', 'arg5'), '#cols')).id] = iadd(NX, NU)
    m[S0.read(fld(raw('obj', 'arg5'), '#rows')).id] = NX
    for i in range(6):
        o = raw('obj', 'arg%d' % i)
        m[S0.read(o).id] = o
    return subst(t, m)


def derivative(nf, t, var):
    """normal form of d t / d var (var: 'x' or 'u')"""
    o = t.op
    if t is X or t is S0.read(X):
        return {((), ()): Fraction(1)} if var == 'x' else {}
    if t is U or t is S0.read(U):
        return {((), ()): Fraction(1)} if var == 'u' else {}
    if not depends(t):
        return {}
    if o in ('+', '-'):
        return nf.add(derivative(nf, t.a[0], var), derivative(nf, t.a[1], var), 1 if o == '+' else -1)
    if o == 'neg':
        return nf.scale(derivative(nf, t.a[0], var), -1)
    if o == '*':
        a, b = t.a
        if not depends(a):
            return nf.mul(nf.nf(a), derivative(nf, b, var))
        if not depends(b) and nf.scalar(b):
            return nf.mul(derivative(nf, a, var), nf.nf(b))
        raise Stuck(show(t)[:200])
    if o == '/' and not depends(t.a[1]):
        return nf.mul(derivative(nf, t.a[0], var), nf.inv(nf.nf(t.a[1])))
    if is_eval(t):
        ins = inputs(t)
        if ins is None or len(ins) != 3 or depends(ins[2]):
            raise Stuck(show(t)[:200])
        st = stage(nf, ins)
        r = {}
        for w, i in (('x', 0), ('u', 1)):
            r = nf.add(r, nf.mul(nf.atom(raw('dfd' + w, st), True), derivative(nf, ins[i], var)))
        return r
    raise Stuck(show(t)[:200])


def depends(t):
    return contains(t, lambda x: x is X or x is U)


def scalar_hint(t):
    if t in (TM, HS) or t is S0.read(TM) or t is S0.read(HS) or t in (NX, NU):
        return True
    if t in (X, U) or t is S0.read(X) or t is S0.read(U):
        return False
    if is_eval(t) or is_jac(t):
        return False
    if t.op.startswith('dfd'):
        return False
    return None


def f_at(x, u, t, like):
    return raw('out', *(like.a[:-1] + ((x, u, t),)))


def steps(like):
    """the documented steps: name -> term"""
    x, u, t, h = X, U, TM, HS
    half = cst(Fraction(1, 2))
    P_ = lambda a, b: raw('+', a, b)
    M_ = lambda a, b: raw('*', a, b)
    f = lambda a, b: f_at(a, u, b, like)
    k1 = f(x, t)
    k2 = f(P_(x, M_(M_(h, half), k1)), P_(t, M_(half, h)))
    k3 = f(P_(x, M_(M_(h, half), k2)), P_(t, M_(half, h)))
    k4 = f(P_(x, M_(h, k3)), P_(t, h))
    two = cst(Fraction(2))
    return {'ExplicitEuler': P_(x, M_(h, k1)),
            'RungeKutta4': P_(x, M_(M_(h, cst(Fraction(1, 6))), P_(P_(k1, M_(two, k2)), P_(M_(two, k3), k4))))}


def canonical_calls(nf, t):
    """rewrite every dynamics evaluation to an atom keyed by its canonical stage point"""
    memo = {}

    def go(x):
        if x.id in memo:
            return memo[x.id]
        r = x
        if is_eval(x) or is_jac(x):
            ins = inputs(x)
            if ins is None:
                raise Stuck(show(x)[:100])
            ins = tuple(go(i) for i in ins)
            r = raw('out', *(x.a[:-1] + (tuple(byid(nf.key(nf.nf(i)).id) for i in ins),)))
            r = raw('stage', r)
        elif x.op in ('+', '-', '*', '/', 'neg'):
            r = raw(x.op, *[go(i) for i in x.a])
        memo[x.id] = r
        return r
    return go(t)


def cst(q):
    return tm.c(q) if hasattr(tm, 'c') and callable(getattr(tm, 'c')) else raw('c', q)


class SNF(NF):
    def _nf(self, t):
        if is_eval(t):
            ins = inputs(t)
            if ins is not None:
                return self.atom(raw('evalat', t.a[2], stage(self, ins)), True)
        return NF._nf(self, t)


def flat_scalars(nf):
    pass


@rule('C35', 'symbolic execution of each integrator step and Jacobian, formal differentiation of the step over uninterpreted dynamics, comparison of non-commutative normal forms')
def c35(R):
    P = R.P
    todo = []
    for k, rec in sorted(P.recs.items()):
        q = facts.strip_targs(rec.get('q', k))
        if q == INT or not derived(P, rec, INT):
            continue
        fns = [f for f in P.fns.values() if f.get('cls') == k]
        for f in fns:
            nm = f['q'].split('::')[-1].split('<')[0]
            if nm in ('Integrate', 'Jacobian'):
                todo.append((k, q, nm, f))
    if not todo:
        raise Removed('integrators exist', 'no subclass of ExplicitIntegrator')
    bycls = {}
    for k, q, nm, f in todo:
        bycls.setdefault((k, q), {})[nm] = f
    R.ob('the library has the Euler and the Runge-Kutta integrator', {'ExplicitEuler', 'RungeKutta4'} <= {q.split('::')[-1] for _, q in bycls}, todo[0][3], str(sorted(q for _, q in bycls)))
    for (k, q), d in sorted(bycls.items()):
        if 'Integrate' not in d or 'Jacobian' not in d:
            R.ob('an integrator has a step and a Jacobian', False, list(d.values())[0], k)
            continue
        R.sub(integrator, q, d['Integrate'], d['Jacobian'])
    R.sub(discretized)


def derived(P, rec, base):
    seen = set()
    todo = [rec]
    while todo:
        r = todo.pop()
        for b in r.get('bs', ()):
            bk = b if isinstance(b, str) else b.get('k') or b.get('rec') or b.get('q')
            if bk in seen:
                continue
            seen.add(bk)
            if facts.strip_targs(bk) == base:
                return True
            if bk in P.recs:
                todo.append(P.recs[bk])
    return False


def integrator(R, q, fi, fj):
    name = q.split('::')[-1]
    en = R.run(None, fn=fi)
    if en.final is None:
        return R.ob('the step is the documented rule', False, fi, 'never returns')
    step = dimmap(en.final.read(raw('obj', 'arg5')))
    jn = R.run(None, fn=fj)
    if jn.final is None:
        return R.ob('the Jacobian is the derivative of the step', False, fj, 'never returns')
    jac = dimmap(jn.final.read(raw('obj', 'arg5')))
    for e, ff in ((en, fi), (jn, fj)):
        for c in e.events:
            if c.kind == 'call' and c.name in DYNF and c.recv is not None and c.recv is not deref(S0.read(DYN)) and c.recv is not deref(DYN):
                R.ob('the given dynamics is evaluated', None if unresolved(c.recv) else False, c, show(c.recv))
            if c.kind == 'call' and c.name in DYNF and len(c.args or ()) >= 3 and c.recv is not None:
                # the dynamics may write its output before it has read all of its input
                out = c.args[-1][0]
                ins = [a[0] for a in c.args[:-1] if a[0] is not None]
                if out is not None:
                    R.ob('the dynamics is not given its output as input', not any(i is out for i in ins), c, 'both are %s' % show(out)[:80])
        r = e.ret
        conds = [x for x in ('ite',) if contains(step if e is en else jac, lambda y: y.op == 'ite')]
        if conds:
            R.ob('the step does not depend on the path', None, ff, '')
            return
    evs = [t for t in walk(step) if is_eval(t)]
    if not evs:
        return R.ob('the step is the documented rule', None if unresolved(step) else False, fi, show(step)[:300])
    sn = SNF(scalar=scalar_hint)
    want = steps(evs[0]).get(name)
    if want is not None:
        R.eqv('the step is the documented rule', sn, step, want, fi, name)
    nf = BNF(dimmap, scalar=scalar_hint)
    for w, nm in (('x', 'state'), ('u', 'control')):
        what = '%s: derivative with respect to the %s' % (name, nm)
        try:
            d = derivative(nf, step, w)
            j = nf.block(jac, w)
        except Stuck as s:
            R.ob('the Jacobian is the derivative of the step', None, fj, '%s: not followed: %s' % (what, s))
            continue
        except Misread as s:
            R.ob('the Jacobian is the derivative of the step', False, fj, '%s: %s' % (what, s))
            continue
        ok = d == j
        if not ok and unresolved(jac):
            ok = None
        diff = nf.add(d, j, -1)
        R.ob('the Jacobian is the derivative of the step', ok, fj, what if ok else '%s differs by %s' % (what, nf.show(diff)[:800]))


def discretized(R):
    """the discretized model hands its own model and every argument to its integrator"""
    P = R.P
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: f['key']):
        if facts.strip_targs(f.get('cls') or '') != 'altro::problem::DiscretizedModel' or f['q'].split('::')[-1] not in ('Evaluate', 'Jacobian') or len(f['ps']) != 5:
            continue
        n += 1
        nm = f['q'].split('::')[-1]
        tgt = 'Integrate' if nm == 'Evaluate' else 'Jacobian'
        en = R.run(None, fn=f, opaque=['altro::problem::RungeKutta4::' + tgt, 'altro::problem::ExplicitEuler::' + tgt])
        cs = [c for c in en.events if c.kind == 'call' and c.name in ('Integrate', 'Jacobian', 'Evaluate') and c.fn is not None and 'problem::' in c.fn['q']]
        if not cs:
            R.ob('discretized models take the integrator step', None if en.unsupported else False, f, 'no integrator call')
            continue
        last = cs[-1]
        if last.name != tgt:
            R.ob('discretized models take the integrator step', False, last, 'calls %s' % last.name)
            continue
        av = [(a[1] if a[1] is not None else a[0]) for a in last.args]
        al_ = [a[0] for a in last.args]
        ok = len(last.args) == 6
        for i in range(4):
            g = av[1 + i] if ok else None
            R.ob('discretized models forward state, control, time and step', g is not None and (g is raw('obj', 'arg%d' % i) or g is S0.read(raw('obj', 'arg%d' % i)) or al_[1 + i] is raw('obj', 'arg%d' % i)) or (None if g is not None and unresolved(g) else False), last, 'argument %d is %s' % (i, show(g) if g is not None else '-'))
        R.ob('discretized models fill the given output', ok and (al_[5] is raw('obj', 'arg4')) or (None if ok and al_[5] is None else False), last, show(al_[5]) if ok and al_[5] is not None else '-')
        R.ob('discretized models always step', always_all(en, last), last, '')
        R.ob('discretized models integrate their own model', ok and under_deref(av[0], THIS), last, show(av[0]))
    if not n:
        raise Removed('discretized models exist', 'DiscretizedModel::Evaluate and Jacobian not found')


def under_deref(v, base):
    return contains(v, lambda x: x is base)
