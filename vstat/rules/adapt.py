"""C36: function adaptors.  Each overload that only re-packages a call is executed symbolically; its result must be the
output of the wrapped virtual function for the same inputs."""
from rules.al2 import *
import facts

FB, SF = 'altro::FunctionBase', 'altro::ScalarFunction'
PR = 'altro::problem::'
CF, CD, DD = PR + 'CostFunction', PR + 'ContinuousDynamics', PR + 'DiscreteDynamics'
DM, ID = PR + 'DiscretizedModel', PR + 'IdentityDynamics'
a = lambda i: raw('obj', 'arg%d' % i)


def isarg(t, i):
    return t is a(i) or t is S0.read(a(i))


def firstrow(t, i):
    """the whole first row of an argument"""
    l = t.a[0] if t.op == 'init' and isinstance(t.a[0], T) else t
    if l.op != 'blk' or l.a[0] is not a(i) or len(l.a) != 5:
        return False
    n = l.a[4]
    while n.op == 'init':
        n = n.a[0]
    return l.a[1] is ZERO and l.a[2] is ZERO and cv(l.a[3]) == 1 and n.op == 'fld' and n.a[0] is a(i) and n.a[1] == '#cols'


def fns_of(R, cls, name, n):
    out = [f for f in R.P.fns.values() if facts.strip_targs(f.get('cls') or '') == cls and f['q'].split('::')[-1] == name and len(f['ps']) == n and not f.get('ctor') and f.get('b')]
    return sorted(out, key=lambda f: f['key'])


def is_out(t, name, pos, want):
    """t is output `pos` of the virtual function `name` of this object for the inputs want (list of predicates)"""
    if t.op != 'out' or t.a[0] != name or t.a[1] != pos:
        return False
    if t.a[2] is not addr(THIS) and t.a[2] is not THIS:
        return False
    ins = t.a[3]
    return len(ins) == len(want) and all(w(x) for w, x in zip(want, ins))


def same(i):
    return lambda t: isarg(t, i)


def decide(R, name, ok, t, at, what=''):
    if not ok and (t is None or unresolved(t)):
        ok = None
    return R.ob(name, ok, at, what if ok else '%s: found %s' % (what, show(t)[:400] if t is not None else 'nothing'))


def through(R, cls, name, n, tgt, pos, want, res, extra='', symdims=None):
    """overload cls::name with n parameters yields output `pos` of tgt"""
    fs = fns_of(R, cls, name, n)
    if not fs:
        raise Removed('adaptors exist', '%s::%s with %d parameters' % (cls, name, n))
    for f in fs:
        if res == 'ret' and f['T'].get(str(f.get('rt', '')), {}).get('k') == 'void':
            continue
        en = R.run(None, fn=f, setup=symdims)
        if en.final is None:
            R.ob('adaptors return what the wrapped function computes', False, f, 'never returns')
            continue
        t = en.ret if res == 'ret' else en.final.read(a(n - 1))
        R.sub(decide, 'adaptors return what the wrapped function computes', t is not None and is_out(t, tgt, pos, want(en, f)), t, f, '%s(%d arguments)%s' % (f['q'], n, extra))
        yield en, f


def field_of_getter(R, cls, g):
    fs = fns_of(R, cls, g, 0)
    if not fs:
        raise Removed('the time and step are available to the adaptors', '%s::%s' % (cls, g))
    en = R.run(None, fn=fs[0])
    return en.ret, fs[0]


@rule('C36', 'symbolic execution of every forwarding overload; its output term must be the virtual call it wraps with identical inputs, block by block')
def c36(R):
    # overloads without time and step use the stored ones
    for cls, extra in ((CD, ('Time',)), (DD, ('Time', 'Step'))):
        gets = []
        for x in extra:
            v, f = field_of_getter(R, cls, 'Get' + x)
            gets.append(v)
            ok = v is not None and v.op == 'init' and v.a[0].op == 'fld'
            R.ob('a getter returns its own field', ok or None, f, show(v) if v is not None else '')
            ss = fns_of(R, cls, 'Set' + x, 1)
            if not ss:
                raise Removed('the time and step can be set', '%s::Set%s' % (cls, x))
            en = R.run(None, fn=ss[0])
            if ok and en.final is not None:
                got = en.final.read(v.a[0])
                R.sub(decide, 'a setter stores the value its getter returns', isarg(got, 0), got, ss[0], x)
                for e in en.events:
                    if e.kind == 'store' and under(e.loc, THIS) and e.loc is not v.a[0]:
                        R.ob('a setter changes nothing else', False, e, show(e.loc))
        if len(gets) == 2:
            R.ob('time and step are different fields', gets[0] is not gets[1], fns_of(R, cls, 'GetTime', 0)[0], '')
        k = len(extra)
        tests = [lambda t, g=g: t is g for g in gets]
        list(through(R, cls, 'Evaluate', 3, 'Evaluate', 2 + k, lambda en, f: [same(0), same(1)] + tests, 'out')) if cls is DD else None
        list(through(R, cls, 'Jacobian', 3, 'Jacobian', 2 + k, lambda en, f: [same(0), same(1)] + tests, 'out'))
        list(through(R, cls, 'Hessian', 4, 'Hessian', 3 + k, lambda en, f: [same(0), same(1)] + tests + [same(2)], 'out'))
        # convenience overloads returning by value
        full = lambda en, f: [same(i) for i in range(2 + k)]
        for f in fns_of(R, cls, 'Evaluate', 2 + k) + fns_of(R, cls, 'operator()', 2 + k):
            en = R.run(None, fn=f)
            if en.ret is not None:
                R.sub(decide, 'adaptors return what the wrapped function computes', is_out(en.ret, 'Evaluate', 2 + k, full(en, f)), en.ret, f, f['q'])
            elif en.final is not None:
                t = en.final.read(a(1 + k))
                R.sub(decide, 'adaptors return what the wrapped function computes', is_out(t, 'Evaluate', 2 + k, [same(0), same(1)] + tests), t, f, f['q'])
        for f in fns_of(R, cls, 'OutputDimension', 0):
            en = R.run(None, fn=f)
            v = en.ret
            R.sub(decide, 'the output of dynamics has the dimension of the state', v is not None and v.op == 'app' and v.a[0] == 'V:StateDimension' and v.a[1] in (addr(THIS), THIS), v, f, cls)
    R.sub(scalar_function)
    R.sub(cost_function)
    R.sub(identity)
    R.sub(models)
    R.sub(second_order)


def scalar_function(R):
    for f in fns_of(R, SF, 'Evaluate', 3):
        en = R.run(None, fn=f)
        t = en.final.read(idx(a(2), ZERO)) if en.final is not None else None
        ok = t is not None and t.op == 'app' and t.a[0] == 'V:Evaluate' and len(t.a) == 4 and t.a[1] in (addr(THIS), THIS) and isarg(t.a[2], 0) and isarg(t.a[3], 1)
        R.sub(decide, 'adaptors return what the wrapped function computes', ok, t, f, 'scalar value as a vector')
    fs = fns_of(R, SF, 'Jacobian', 3)
    if not fs:
        raise Removed('adaptors exist', 'ScalarFunction::Jacobian')
    for f in fs:
        en = R.run(None, fn=f)
        t = en.final.read(a(2)) if en.final is not None else None
        ok = False
        if t is not None and t.op == 'app' and t.a[0] == 'transpose':
            ok = is_out(t.a[1], 'Gradient', 2, [same(0), same(1)])
        elif t is not None and t.op == 'agg' and len(t.a[1]) == 1 and t.a[1][0][0][0][0] == 'b':
            # first row only
            b = t.a[1][0][0][0]
            v = t.a[1][0][1]
            ok = b[1] is ZERO and b[2] is ZERO and cv(b[3]) == 1 and v.op == 'app' and v.a[0] == 'transpose' and is_out(v.a[1], 'Gradient', 2, [same(0), same(1)])
        raw_ptr = any(e.kind == 'call' and e.name == 'data' for e in en.events) or contains_data(f.get('b'))
        if not ok and raw_ptr:
            # contiguous re-interpretation of a Ref<MatrixXd>, whose rows need not be contiguous
            R.ob('the Jacobian of a scalar function is its transposed gradient', False if not strided(f.get('b')) else None, f, 'the 1 x (n+m) row is re-interpreted as contiguous memory')
        else:
            R.sub(decide, 'the Jacobian of a scalar function is its transposed gradient', ok, t, f, '')
        # what the gradient does not write keeps the value it had in the Jacobian
        for e in en.events:
            if e.kind == 'call' and e.name == 'Gradient' and e.extra == 'virtual' and len(e.args) == 3:
                l = e.args[2][0]
                pre = e.st.read(l) if l is not None and e.st is not None else None
                if pre is not None and not raw_ptr:
                    keeps = pre.op == 'app' and (pre.a[0] == 'Zero' or pre.a[0] == 'transpose' and (isarg(pre.a[1], 2) or firstrow(pre.a[1], 2))) or under(l, a(2))
                    R.ob('a gradient that writes only its nonzero entries stays complete', keeps or (None if unresolved(pre) and not pre.op == 'undef' else False), e, show(pre)[:200])
    list(through(R, SF, 'Hessian', 4, 'Hessian', 2, lambda en, f: [same(0), same(1)], 'out'))
    for f in fns_of(R, SF, 'OutputDimension', 0):
        en = R.run(None, fn=f)
        R.sub(decide, 'a scalar function has one output', en.ret is ONE, en.ret, f, '')


def contains_data(b):
    return any(n.get('k') in ('mcl', 'call', 'opc') and n.get('fn', {}).get('n') == 'data' for n in astnodes(b))


def strided(b):
    return any('Stride' in str(n.get('fn', {}).get('q', '')) for n in astnodes(b)) or any(n.get('fn', {}).get('n') in ('outerStride', 'rowStride', 'colStride') for n in astnodes(b))


def astnodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from astnodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from astnodes(v)


def cost_function(R):
    n, m = app('V:StateDimension', addr(THIS)), app('V:ControlDimension', addr(THIS))
    tot = iadd(n, m)

    def dims(en, fr):
        en.symdims = {a(2): (tot, tot)}
    B = lambda r, c, nr, nc: raw('blk', a(2), r, c, nr, nc)
    fs = fns_of(R, CF, 'Gradient', 3)
    if not fs:
        raise Removed('adaptors exist', 'CostFunction::Gradient')
    for f in fs:
        en = R.run(None, fn=f, setup=dims)
        for nm, l, pos in (('state', B(ZERO, ZERO, n, ONE), 2), ('control', B(n, ZERO, m, ONE), 3)):
            t = en.final.read(l)
            R.sub(decide, 'the combined gradient has the state part above the control part', is_out(t, 'Gradient', pos, [same(0), same(1)]), t, f, nm)
    fs = fns_of(R, CF, 'Hessian', 3)
    if not fs:
        raise Removed('adaptors exist', 'CostFunction::Hessian')
    for f in fs:
        en = R.run(None, fn=f, setup=dims)
        w = [same(0), same(1)]
        t = en.final.read(B(ZERO, ZERO, n, n))
        R.sub(decide, 'the combined Hessian has every block in place', is_out(t, 'Hessian', 2, w), t, f, 'state-state')
        t = en.final.read(B(n, n, m, m))
        R.sub(decide, 'the combined Hessian has every block in place', is_out(t, 'Hessian', 4, w), t, f, 'control-control')
        t = en.final.read(B(ZERO, n, n, m))
        R.sub(decide, 'the combined Hessian has every block in place', is_out(t, 'Hessian', 3, w), t, f, 'state-control')
        t = en.final.read(B(n, ZERO, m, n))
        ok = t.op == 'app' and t.a[0] == 'transpose' and is_out(t.a[1], 'Hessian', 3, w)
        if not ok and (t.op == 'init' or t.op == 'sel' and t.a[0].op == 'init'):
            ok2 = False
            R.ob('the combined Hessian has every block in place', ok2, f, 'control-state block is not written')
        else:
            R.sub(decide, 'the combined Hessian has every block in place', ok, t, f, 'control-state')


def identity(R):
    for f in fns_of(R, ID, 'Evaluate', 5):
        en = R.run(None, fn=f)
        t = en.final.read(a(4))
        R.sub(decide, 'the identity dynamics keep the state', isarg(t, 0), t, f, '')
    for f in fns_of(R, ID, 'Jacobian', 5):
        en = R.run(None, fn=f)
        t = en.final.read(a(4))
        ok = t.op == 'app' and t.a[0] == 'Identity'
        R.sub(decide, 'the Jacobian of the identity dynamics is [I 0]', ok, t, f, '')
    for f in fns_of(R, ID, 'Hessian', 6):
        en = R.run(None, fn=f)
        t = en.final.read(a(5))
        R.sub(decide, 'the identity dynamics have no curvature', t.op == 'app' and t.a[0] == 'Zero', t, f, '')
    cs = [f for f in R.P.fns.values() if f.get('cls') == ID and f.get('ctor') and len(f['ps']) == 2]
    for f in cs:
        en = R.run(None, fn=f)
        for i, g in enumerate(('StateDimension', 'ControlDimension')):
            v = R.val(en, ID + '::' + g)
            R.sub(decide, 'the identity dynamics have the given dimensions', isarg(v, i), v, f, g)


def models(R):
    """the discretized model reports the dimensions of its model and copies the given model"""
    for c in sorted({f.get('cls') for f in R.P.fns.values() if facts.strip_targs(f.get('cls') or '') == DM}):
        cs = [f for f in R.P.fns.values() if f.get('cls') == c and f.get('ctor') and len(f['ps']) == 1 and 'DiscretizedModel' not in f['T'][f['ps'][0]['t']].get('s', '')] if True else []
        mt = None
        rec = R.P.recs.get(c)
        mf = next((x for x in rec['fs'] if rec['T'][x['t']].get('rq', '').endswith('shared_ptr')), None) if rec else None
        if mf is None:
            R.ob('a discretized model holds the model it discretizes', None, cs[0] if cs else None, c)
            continue
        ml = fld(THIS, mf['n'])
        for f in cs:
            en = R.run(None, fn=f)
            if en.final is None:
                continue
            p = en.final.read(ml)
            inner = en.final.read(deref(p)) if p is not None and p.op not in ('c',) else None
            ok = inner is not None and (isarg(inner, 0))
            R.ob('a discretized model copies the given model', ok or None, f, show(inner)[:200] if inner is not None else '')
        for g in ('StateDimension', 'ControlDimension', 'HasHessian'):
            fs = [f for f in R.P.fns.values() if f.get('cls') == c and f['q'].split('::')[-1] == g]
            for f in fs:
                en = R.run(None, fn=f)
                model = c[c.index('<') + 1:].split(',')[0].strip()
                tg = [x for x in R.P.fns.values() if x.get('cls') == model and x['q'].split('::')[-1] == g and not x['ps']]
                if len(tg) != 1:
                    continue
                want = R.val(en, tg[0]['q'], this=deref(S0.read(ml)), st=S0)
                R.sub(decide, 'a discretized model has the dimensions of its model', en.ret is want, en.ret, f, g)


def second_order(R):
    """a library class that reports second derivatives writes them"""
    for f in sorted(R.P.fns.values(), key=lambda f: f['key']):
        c = f.get('cls') or ''
        if f['q'].split('::')[-1] != 'HasHessian' or f['ps'] or not f.get('b') or not c.startswith('altro::') or c.startswith('altro::examples') or facts.strip_targs(c) in (FB, SF):
            continue
        en = R.run(None, fn=f)
        if en.ret is not ONE:
            continue
        hs = [g for g in R.P.fns.values() if g.get('cls') == c and g['q'].split('::')[-1] == 'Hessian' and g.get('b')]
        for g in sorted(hs, key=lambda g: g['key']):
            k = len(g['ps'])
            hn = R.run(None, fn=g)
            if hn.final is None:
                continue
            t = hn.final.read(a(k - 1))
            R.ob('a class that reports second derivatives writes its Hessian', not isarg(t, k - 1), g, '%s leaves its output as it was' % facts.strip_targs(c))


# ------------------------------------------------------------------ C39
UT = 'altro::utils::'
FD = [UT + 'FiniteDiffJacobian', UT + 'FiniteDiffGradient', UT + 'FiniteDiffHessian']


ZV = raw('obj', 'perturbed')


def closure_values(R, lam, st):
    """[(body, value returned for the input arg0, run)] of every instantiation of a closure; captured references are
    resolved in state st; the parameter is ZV"""
    out = []
    pre = lam.a[0].split('::operator()')[0]
    for k in sorted(R.P.fns):
        if not k.startswith(pre + '::operator()') or not R.P.fns[k].get('b') or 'type-parameter' in k:
            continue
        c = run_closure(R, raw('lam', k, *lam.a[1:]), args=[ZV])
        if c is None:
            continue
        v = c.ret
        if v is not None:
            v = bind(v, st)
        out.append((R.P.fns[k], v, c))
    return out


def bind(v, st):
    m = {}
    for x in walk(v):
        if x.op == 'init' and x.a[0].op == 'var':
            m[x.id] = st.read(x.a[0])
    return subst(v, m)


def deepwalk(t):
    return walk(t)


def point_parts(t, z, n, m, which):
    """t is the state (first n) or control (last m) part of the vector z"""
    if t.op == 'sel' and t.a[0] in (z, S0.read(z)) and t.a[1][0] == 'b':
        r, c_, nr, nc = t.a[1][1:]
        if which == 'x':
            return r is ZERO and nr in n
        return nr in m and (any(idiff(r, k) == 0 for k in n) or idiff(iadd(r, nr), S0.read(fld(z, '#rows'))) == 0)
    if t.op == 'init' and t.a[0].op == 'blk' and t.a[0].a[0] is z:
        _, r, c_, nr, nc = t.a[0].a
        if which == 'x':
            return r is ZERO and nr in n
        return nr in m and (any(idiff(r, k) == 0 for k in n) or idiff(iadd(r, nr), S0.read(fld(z, '#rows'))) == 0)
    if not unresolved(t) and not contains(t, lambda x: x is z):
        return False        # not even a part of the perturbed point
    return None


def norm_of(v):
    """the matrix whose Euclidean norm v is"""
    if v.op == 'app' and v.a[0] == 'lpNorm' and v.a[1] is tm.s('2'):
        return v.a[2]
    if v.op in ('app',) and str(v.a[0]).split('::')[-1] == 'sqrt' and v.a[-1].op == 'app' and v.a[-1].a[0] == 'E.squaredNorm':
        return v.a[-1].a[1]
    return None


@rule('C39', 'symbolic execution of the checkers with the finite-difference routines as uninterpreted functions; inductive check of the finite-difference loop')
def c39(R):
    nf = NF(scalar=lambda t: None)
    R.sub(checker, FB, 'CheckJacobian', 'Jacobian', 4, 2, 'FiniteDiffJacobian', 2)
    R.sub(checker, SF, 'CheckGradient', 'Gradient', 4, 2, 'FiniteDiffGradient', 2)
    R.sub(checker, FB, 'CheckHessian', 'Hessian', 5, 3, 'FiniteDiffHessian', 3)
    R.sub(finite)


def checker(R, cls, name, own, n, pos, fdname, epsarg):
    fs = fns_of(R, cls, name, n)
    if not fs:
        raise Removed('the checkers exist', '%s::%s' % (cls, name))
    f = fs[0]
    en = R.run(None, fn=f, opaque=FD)
    R.sub(judge_check, en, f, own, pos, fdname, a(epsarg), a(0), a(1), [a(i) for i in range(2, epsarg)], a(epsarg + 1))
    # the overload at a random point
    for g in fns_of(R, cls, name, 2):
        en = R.run(None, fn=g, opaque=FD)
        R.sub(judge_check, en, g, own, pos, fdname, a(0), None, None, None, a(1))


def judge_check(R, en, f, own, pos, fdname, eps, x, u, more, verbose):
    v = en.ret
    if v is None or en.final is None:
        return R.ob('a check returns a verdict', None if en.unsupported else False, f, '')
    vb = S0.read(verbose)
    R.ob('the verdict does not depend on verbosity', not contains(v, lambda t: t is vb or t is verbose) or False, f, show(v)[:200])
    ev = S0.read(eps)
    # the verdict is the single comparison norm < eps
    lits = list(atoms(v)) if v.op == 'ite' else [v]
    if len(lits) != 1 or lits[0].op not in ('flt', 'fle'):
        return R.ob('accepted exactly when the error is below the tolerance', None if unresolved(v) else False, f, show(v)[:300])
    at_ = lits[0]
    l, r = at_.a
    if at_.op == 'flt' and (r is ev or r is eps):
        pol, er = v is mk(at_, TRUE, FALSE) or v is at_, l
    elif at_.op == 'fle' and (l is ev or l is eps):
        # error below tolerance is not (eps <= err)
        if v is mk(at_, FALSE, TRUE):
            return R.ob('accepted exactly when the error is below the tolerance', False, f, 'an error that is not a number is accepted: %s' % show(v)[:200])
        pol, er = False, r
    else:
        return R.ob('accepted exactly when the error is below the tolerance', False if ev in (l, r) or eps in (l, r) or not contains(at_, lambda t: t is ev) else None, f, show(v)[:300])
    R.ob('accepted exactly when the error is below the tolerance', pol or None if pol else False, f, show(v)[:120])
    d = norm_of(er)
    if d is None and not unresolved(er) and contains(er, lambda t: t.op == 'app' and t.a[0] in ('lpNorm', 'E.maxCoeff', 'E.sum', 'E.mean', 'E.minCoeff') or t.op == '/'):
        return R.ob('the error is the norm of the difference', False, f, show(er)[:300])
    if d is None or d.op != '-' and d.op != '+':
        return R.ob('the error is the norm of the difference', None, f, show(er)[:300])
    fd = [c for c in en.events if c.kind == 'call' and c.name in [q.split('::')[-1] for q in FD]]
    if len(fd) != 1:
        return R.ob('the check differences its own function', False if not fd and not unresolved(er) else None, f, '%d finite differences' % len(fd))
    fd = fd[0]
    R.ob('the derivative is compared with the matching finite difference', fd.name == fdname or None, fd, fd.name)
    sides = [t.a[0] if t.op == 'neg' else t for t in d.a]
    neg = d.op == '-' or any(t.op == 'neg' for t in d.a)
    mine = [t for t in sides if t.op == 'out' and t.a[0] == own]
    num = [t for t in sides if t.op == 'app' and str(t.a[0]).endswith(fdname)]
    if not neg or len(mine) != 1 or len(num) != 1:
        return R.ob('the error is the norm of the difference', None if unresolved(d) else False, f, show(d)[:300])
    R.ob('the error is the norm of the difference', True, f, '')
    mine, num = mine[0], num[0]
    ins = mine.a[3]
    R.ob('the derivative checked is the own one', mine.a[1] == pos and mine.a[2] in (addr(THIS), THIS), f, show(mine)[:200])
    if x is not None:
        ok = isarg(ins[0], 0) and isarg(ins[1], 1) and all(isarg(ins[2 + i], 2 + i) for i in range(len(more)))
        R.ob('the derivative is taken at the given point', ok or (None if unresolved(mine) else False), f, show(mine)[:200])
    # the derivative buffer starts at zero
    for c in en.events:
        if c.kind == 'call' and c.name == own and c.extra == 'virtual' and len(c.args) > pos and c.st is not None:
            lb = c.args[pos][0]
            pre = c.st.read(lb) if lb is not None else None
            R.ob('the derivative buffer is zero beforehand', pre is not None and pre.op == 'app' and pre.a[0] == 'Zero' or (None if pre is None or not contains(pre, lambda t: t.op in ('undef',) or t.op == 'app' and t.a[0] == 'Uninit') else False), c, show(pre)[:100] if pre is not None else '')
    # the finite difference is taken at the same point
    pt = fd.args[1][1]
    ok = pt is not None and pt.op == 'app' and pt.a[0] == 'comma' and len(pt.a) == 3 and pt.a[1] is ins[0] and pt.a[2] is ins[1]
    R.ob('the finite difference is taken at the same point', ok or (None if pt is None or unresolved(pt) or pt.op != 'app' or pt.a[0] != 'comma' else False), fd, show(pt)[:200] if pt is not None else '')
    lam = fd.args[0][1]
    if lam is None or lam.op != 'lam':
        return R.ob('the finite difference is of the same function', None, fd, '')
    n, m = sizes(en, own, pos, ins, x is None)
    vals = closure_values(R, lam, fd.st)
    if not vals:
        return R.ob('the finite difference is of the same function', None, fd, 'closure not analysed')
    for g, v, c in vals:
        if v is None:
            R.ob('the finite difference is of the same function', None, g, '')
            continue
        outs = [t for t in walk(v) if t.op in ('out', 'app') and (t.op == 'out' and t.a[0] == 'Evaluate' or t.op == 'app' and t.a[0] == 'V:Evaluate')]
        if not outs:
            R.ob('the finite difference is of the same function', None if unresolved(v) else False, g, show(v)[:200])
            continue
        for t in outs:
            i2 = t.a[3] if t.op == 'out' else t.a[2:]
            rc = t.a[2] if t.op == 'out' else t.a[1]
            p0 = point_parts(i2[0], ZV, n, m, 'x')
            p1 = point_parts(i2[1], ZV, n, m, 'u')
            R.ob('the finite difference is of the same function', rc in (addr(THIS), THIS), g, show(rc))
            R.ob('the function is evaluated at the perturbed point', None if p0 is None else p0, g, 'state part %s of size %s' % (show(i2[0])[:150], [show(k) for k in n]))
            R.ob('the function is evaluated at the perturbed point', None if p1 is None else p1, g, 'control part %s of size %s' % (show(i2[1])[:150], [show(k) for k in m]))
        if fdname == 'FiniteDiffHessian' and len(ins) > 2 and cls_scalar(v) is not True:
            b = ins[2]
            while v.op == 'app' and str(v.a[0]).startswith('E.') and len(v.a) == 2:
                v = v.a[1]
            if x is None:
                continue
            ok = contains(v, lambda t: t is b or isarg(t, 2))
            if ok:
                nfm = NF(scalar=lambda t: False if t.op in ('out', 'init', 'app') else None)
                p, q = nfm.nf(v), None
                try:
                    q = nfm.scalarize(nfm.mul(nfm.tr(nfm.nf(outs[0])), nfm.nf(b)))
                    ps = nfm.scalarize(p)
                    R.ob('the Hessian check differences b\'f', ps == q or None, g, show(v)[:300])
                except Exception as e:
                    R.ob('the Hessian check differences b\'f', None, g, repr(e))
            else:
                R.ob('the Hessian check differences b\'f', None if unresolved(v) else False, g, show(v)[:300])
        elif fdname != 'FiniteDiffHessian':
            ok = v in outs or v.op == 'sel' and v.a[0] in outs and all(i is ZERO for i in v.a[1][1:]) or v.op == 'app' and v.a[0] == 'V:Evaluate'
            R.ob('the finite difference is of the same function', ok or (None if unresolved(v) else False), g, show(v)[:200])


def cls_scalar(v):
    return v.op == 'app' and v.a[0] == 'V:Evaluate'


def sizes(en, own, pos, ins, local):
    """terms that denote the sizes of the state and the control"""
    out = []
    for i in range(2):
        ok = []
        for c in en.events:
            if c.kind == 'call' and c.name == own and c.extra == 'virtual' and len(c.args) > pos and c.args[i][0] is not None:
                l = c.args[i][0]
                ok += [S0.read(fld(l, f)) for f in ('#rows', '#size')]
        if local:
            ok += [x for x in ins[i].a if isinstance(x, T)]
            for c in en.events:
                if c.kind == 'call' and ins[i].op == 'ret' and c.seq == ins[i].a[0] - 1:
                    ok += [v for _, v in c.args if v is not None]
        out.append(ok)
    return out


def finite(R):
    P = R.P
    js = sorted([f for f in P.fns.values() if f['q'] == FD[0] and len(f['ps']) == 4 and f.get('b')], key=lambda f: f['key'])
    if not js:
        raise Removed('finite differences exist', FD[0])
    for f in js:
        en = R.run(None, fn=f, opaque=FD)
        R.sub(jacobian_loop, en, f)
    # gradient and Hessian reduce to the Jacobian
    for f in sorted([f for f in P.fns.values() if f['q'] == FD[1] and f.get('b')], key=lambda f: f['key']):
        en = R.run(None, fn=f, opaque=FD)
        v = en.ret
        w = v.a[1] if v is not None and v.op == 'app' and v.a[0] == 'transpose' else None
        ok = w is not None and w.op == 'app' and str(w.a[0]).endswith('FiniteDiffJacobian') and isarg(w.a[2], 1) and isarg(w.a[3], 2) and isarg(w.a[4], 3) and holds(w.a[1], 0)
        R.sub(decide, 'the finite-difference gradient is the transposed Jacobian at the same point and step', ok, v, f, '')
    for f in sorted([f for f in P.fns.values() if f['q'] == FD[2] and f.get('b')], key=lambda f: f['key']):
        en = R.run(None, fn=f, opaque=FD)
        w = en.ret
        ok = w is not None and w.op == 'app' and str(w.a[0]).endswith('FiniteDiffJacobian') and isarg(w.a[2], 1) and isarg(w.a[3], 2) and isarg(w.a[4], 3) and holds(w.a[1], 0) and holds(w.a[1], 2) and holds(w.a[1], 3)
        R.sub(decide, 'the finite-difference Hessian differences the gradient at the same point and step', ok, w, f, '')
    for f in sorted([f for f in P.fns.values() if f['q'] == UT + 'FiniteDiffGradientFunc::operator()' and f.get('b')], key=lambda f: f['key']):
        en = R.run(None, fn=f, opaque=FD)
        w = en.ret
        ok = w is not None and w.op == 'app' and str(w.a[0]).endswith('FiniteDiffGradient') and isarg(w.a[2], 0) and all(x.op == 'init' and under(x.a[0], THIS) for x in (w.a[1], w.a[3], w.a[4])) and len({w.a[1].id, w.a[3].id, w.a[4].id}) == 3
        R.sub(decide, 'the gradient functor differences its function at the given point', ok, w, f, '')
    for f in sorted([f for f in P.fns.values() if f['q'] == UT + 'ScalarToVec::operator()' and f.get('b')], key=lambda f: f['key']):
        en = R.run(None, fn=f, opaque=FD)
        w = en.ret
        e0 = None
        if w is not None:
            e0 = w.a[1][0][1] if w.op == 'agg' and len(w.a[1]) == 1 else w
        cs = [c for c in en.events if c.kind == 'call' and c.name == 'callvalue']
        ok = e0 is not None and e0.op == 'ret' and len(cs) == 1 and isarg(cs[0].args[0][1], 0)
        R.sub(decide, 'a scalar as a one-element vector keeps its value', ok, w, f, '')


def holds(t, i):
    """the functor carries argument i"""
    return contains(t, lambda x: isarg(x, i)) or t.op == 'rec' and any(isarg(x[1], i) for x in t.a)


def jacobian_loop(R, en, f):
    X, EPS, CEN = S0.read(a(1)), S0.read(a(2)), S0.read(a(3))
    cen = tobool(CEN)
    nm = 'every column is the difference quotient along its own coordinate'
    sts = [e for e in en.events if e.kind == 'store' and e.loops and e.loc is not None and e.loc.op == 'blk' and cv(e.loc.a[4]) == 1 and e.loc.a[1] is ZERO]
    if not sts:
        return R.ob(nm, None, f, 'no column is written in a loop')
    ncols = S0.read(fld(a(1), '#rows'))
    parts = []
    for e in sts:
        i = e.loc.a[2]
        parts.append((e, ((i, ZERO, ncols),)))
    R.sub(covers, en, 'every column of the finite difference is filled', parts, None, f)
    evs = {e.seq: e for e in en.events}
    for e in sts:
        i = e.loc.a[2]
        L = en.loops[e.loops[-1]]
        for flag, cond in (('central', cen), ('forward', NOT(cen))):
            v = e.val
            try:
                v = restrict(v, cond)
            except Exception:
                pass
            v = settle(en, L, v, cond)
            q = quotient(en, evs, L, v, i, cond, X, EPS, flag)
            R.ob(nm, q[0], e, '%s: %s' % (flag, q[1]))


def settle(en, L, v, cond):
    """loop-carried values that no iteration changes under cond keep their entry value"""
    m = {}
    for x in walk(v):
        if x.op == 'mu' and isinstance(x.a[-1], T):
            l = x.a[-1]
            w = [e for e in en.events if e.kind == 'store' and e.loops and e.loops[-1] == e.loops[0] and overlaps(e.loc, l)]
            if w and all(not sat(AND(e.pc, cond)) for e in w) and L.s0 is not None:
                m[x.id] = L.s0.read(l)
    return subst(v, m) if m else v


def overlaps(x, l):
    return x is not None and (under(x, l) or under(l, x))


def quotient(en, evs, L, v, i, cond, X, EPS, flag):
    if v.op != '/':
        return None, show(v)[:200]
    num, den = v.a
    if num.op != '-':
        return None, show(num)[:200]
    terms = []
    for s_, t in ((1, num.a[0]), (-1, num.a[1])):
        t = restrict(t, cond) if t.op == 'ite' else t
        if t.op == 'agg' and len(t.a[1]) == 1 and cv(t.a[1][0][0][0][1]) == 0:
            t = t.a[1][0][1]
        if t.op == 'app' and str(t.a[0]).endswith('FiniteDiffGradient'):
            cs = [c for c in evs.values() if c.kind == 'call' and c.name == 'FiniteDiffGradient' and len(c.args) > 1 and c.args[1][1] is t.a[2]]
            terms.append((s_, cs[-1] if cs else None, t.a[2]))
            continue
        if t.op != 'ret' or t.a[0] - 1 not in evs:
            return None, show(t)[:200]
        c = evs[t.a[0] - 1]
        if c.kind != 'call' or len(c.args) != 1 or c.name != 'callvalue':
            return None, show(t)[:200]
        terms.append((s_, c, c.args[0][1]))
    nf = NF(scalar=lambda t: False if t is X else (True if t is EPS else None))
    # displacement of each evaluation, in multiples of one displacement vector
    offs = []
    disp = None
    for s_, c, p in terms:
        d = nf.add(nf.nf(p), nf.nf(X), -1)
        if not d:
            offs.append(Fraction(0))
            continue
        if len(d) != 1:
            return None, 'displacement %s' % nf.show(d)
        (sc, ms), k = next(iter(d.items()))
        if sc or len(ms) != 1:
            return None, 'displacement %s' % nf.show(d)
        t = byid(ms[0][0])
        if disp is not None and t is not disp[0]:
            return None, 'different displacements'
        disp = (t, c)
        offs.append(k)
    if disp is None:
        return False, 'the function is evaluated at the same point twice'
    span = offs[0] - offs[1]
    if flag == 'central' and offs[0] != -offs[1]:
        return False, 'central differences are not symmetric: offsets %s and %s' % tuple(offs)
    dn = restrict(den, cond) if den.op == 'ite' else den
    if nf.nf(dn) != nf.nf(raw('*', raw('c', span), EPS)):
        return (None if unresolved(dn) else False), 'divided by %s for a displacement of %s steps' % (show(dn), span)
    ok, why = unit(en, L, disp[0], disp[1], i, EPS)
    return ok, why


def unit(en, L, E, at, i, EPS):
    """E is EPS times unit vector i"""
    if E.op == 'agg' and E.a[0].op == 'app' and E.a[0].a[0] == 'Zero':
        ents = [(x, v) for x, v in E.a[1]]
        if len(ents) == 1 and ents[0][0][0][0] == 'i':
            return (ents[0][0][0][1] is i and ents[0][1] is EPS), 'displacement %s' % show(E)[:200]
        return None, show(E)[:200]
    if E.op != 'mu':
        return None, show(E)[:200]
    l = E.a[-1]
    # induction over the loop: initially unit vector lo, each step moves it on
    m0 = L.main or L.main_only
    if m0 is None or L.s0 is None or L.back is None:
        return None, 'loop not understood'
    mi, lo, step = m0[0], L.lo, m0[2]
    if mi is not i or step != 1:
        return None, 'the column is not the loop counter'
    e0 = L.s0.read(l)
    ok, why = unit(en, L, e0, at, lo, EPS) if e0.op == 'agg' else (None, show(e0)[:100])
    if ok is not True:
        return ok, 'before the loop: ' + why
    nxt = AND(L.back.pc, tobool(ilt(iadd(i, ONE), L.hi)))
    inv = {}

    def rd(k):
        v = L.back.read(idx(l, k))
        v = restrict(v, nxt) if v.op == 'ite' else v
        # the invariant: element i is EPS
        mm = {x.id: EPS if x.a[-1] is idx(l, i) else ZERO for x in walk(v) if x.op == 'mu' and x.a[-1] in (idx(l, i), idx(l, iadd(i, ONE)))}
        return subst(v, mm) if mm else v
    n1, n0 = rd(iadd(i, ONE)), rd(i)
    if n1.op == 'ite' and all(x is EPS or cv(x) is not None for x in leaves(n1)):
        return False, 'element i+1 becomes %s' % show(n1)[:100]
    if n1 is not EPS:
        return (None if unresolved(n1) and not n1.op == 'mu' else False), 'element i+1 becomes %s' % show(n1)[:100]
    if cv(n0) != 0:
        return (None if unresolved(n0) and n0.op != 'mu' else False), 'element i becomes %s' % show(n0)[:100]
    for e in en.events:
        if e.kind == 'store' and e.loc is not None and e.loops and e.loops[-1] == at.loops[-1] and under(e.loc, l):
            if e.loc is not idx(l, i) and e.loc is not idx(l, iadd(i, ONE)):
                return None, 'other elements are written'
    return True, ''
