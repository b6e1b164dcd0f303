"""Checks made by the public entry points (C27)."""
import effects
from rulelib import *
from rules.kpf import *
from rules.ilqr import *
from rules.ilqr2 import *
from rules.par import *
from rules.al import *
from rules.al2 import *
from rules.life import *

PROB = 'altro::problem::Problem'
ALC = 'altro::augmented_lagrangian::ALCost'
ALQ = 'altro::augmented_lagrangian::AugmentedLagrangianiLQR'
KPFN = 'altro::ilqr::KnotPointFunctions'
INIT = engine.State()


def arg(i):
    return raw('init', raw('obj', 'arg%d' % i))


def within(i, lo, hi):
    """lo <= arg i < hi"""
    return AND(NOT(ilt(arg(i), lo)), ilt(arg(i), hi))


def nonnull(v):
    return NOT(eq(v, NULL, False))


def segs(R, en, q):
    return R.val(en, q + '::NumSegments', this=THIS, st=INIT)


def required(R, en, f, name, cond, why):
    """f completes only when cond holds, and does nothing observable before it knows"""
    if cond is None:
        return R.ob(name, None, f, why)
    pcs = []
    if en.final is not None:
        pcs.append((en.final.pc, f))
    asm = assumed(en)
    ok = True
    if en.final is None:
        return R.ob(name, None, f, 'no normal exit')
    if not implies(en.final.pc, cond):
        ok = None if incomparable(en.final.pc, cond) else False
        return R.ob(name, ok, f, '%s; it completes under %s' % (why, show(en.final.pc)[:160]))
    for e in en.events:
        if e.kind == 'store' and not shared(e.loc):
            continue
        if f.get('ctor') or e.kind == 'call' and e.extra != 'virtual':
            continue
        if e.kind not in ('store', 'call'):
            continue
        if not implies(e.pc, cond):
            ok = None if incomparable(e.pc, cond) else False
            return R.ob(name, ok, e, '%s only after this' % why)
    if not sat(AND(en.final.pc, cond)):
        return R.ob(name, False, f, 'never completes')
    R.ob(name, True, f)


def accepts(R, en, f, name, lo, hi, i, inside):
    """both ends of the valid range are accepted (when there is one)"""
    for v, what in ((lo, 'first'), (isub(hi, ONE), 'last')):
        if not sat(AND(AND(en.final.pc, eq(arg(i), v, True)), inside)):
            return R.ob(name, False, f, 'rejects the %s valid index' % what)
    R.ob(name, True, f)


def shared(l):
    """the location outlives the call"""
    while isinstance(l, T) and l.op in ('fld', 'idx', 'blk'):
        l = l.a[0]
    return not (isinstance(l, T) and l.op == 'var')


def incomparable(pc, cond):
    """the path condition says something about the arguments that this analysis cannot read"""
    return any(contains(t, lambda x: x.op in ('unk', 'undef', 'hv', 'ret') or x.op == 'app' and not str(x.a[0]).startswith('V:')) for t in atoms(pc))


def overloads(P, q, n, first=None, last=None):
    for f in P.find(q):
        if not f.get('b') or len(f['ps']) != n:
            continue
        ts = [f['T'][p['t']] for p in f['ps']]
        if first and first not in ts[0].get('s', '') or ts[0].get('s', '').startswith(('std::vector', 'const std::vector')):
            continue
        if last == 'int' and not (ts[-1].get('k') == 'int' or ts[-1].get('s', '').replace('const ', '').replace('&', '').strip() == 'int'):
            continue
        yield f


INDEXED = (   # function, number of parameters, first parameter type, index parameter, range
    (PROB + '::SetCostFunction', 2, 'shared_ptr<altro::problem::CostFunction>', 1, 'knot'),
    (PROB + '::SetDynamics', 2, 'shared_ptr<altro::problem::DiscreteDynamics>', 1, 'seg'),
    (PROB + '::SetConstraint', 2, 'shared_ptr<altro::constraints::Constraint<', 1, 'knot'),
    (PROB + '::NumConstraints', 1, None, 0, 'knot'),
    (PROB + '::GetCostFunction', 1, None, 0, 'knot'),
    (PROB + '::GetDynamics', 1, None, 0, 'knot'),
    (ILQR + '::GetKnotPointFunction', 1, None, 0, 'knot'),
    (ILQR + '::CopyFromProblem', 3, None, 1, 'knot'),
    (ILQR + '::CopyFromProblem', 3, None, 2, 'stop'),
    (ALQ + '::NumConstraints', 1, None, 0, 'knot'),
    (ALC + '::SetPenalty', 2, None, 1, 'con'),
    (ALC + '::SetPenaltyScaling', 2, None, 1, 'con'),
    (ALC + '::ALCost', 2, 'Problem', 1, 'prob'),
)
NONNULL = (   # function, number of parameters, first parameter type, pointer parameter
    (PROB + '::SetDynamics', 2, 'shared_ptr<altro::problem::DiscreteDynamics>', 0),
    (PROB + '::SetConstraint', 2, 'shared_ptr<altro::constraints::Constraint<', 0),
    (ALC + '::SetCostFunction', 1, None, 0),
    (ILQR + '::SetTrajectory', 1, None, 0),
    (ALQ + '::SetTrajectory', 1, None, 0),
)


@rule('C27', 'path-condition analysis of the public entry points: range and null conditions dominate every access')
def c27(R):
    P = R.P
    cache = {}

    def run(f):
        if f['key'] not in cache:
            cache[f['key']] = R.run(None, fn=f)
        return cache[f['key']]
    n = 0
    for q, np_, first, i, kind in INDEXED:
        fs = list(overloads(P, q, np_, first))
        if not fs:
            R.ob('index range checked', None, ('altro', q), 'function not found')
        for f in fs:
            t = f['T'][f['ps'][i]['t']]
            if t.get('k') != 'int' and 'int' not in t.get('s', ''):
                continue
            en = run(f)
            n += 1
            if kind == 'con':
                ct = con_type(f)
                N = R.val(en, ALC + '::NumConstraintFunctions', this=THIS, st=INIT, pred=lambda g, ct=ct: con_type(g) == ct)
                lo, hi = ZERO, N
            elif kind == 'prob':
                lo, hi = ZERO, iadd(R.val(en, PROB + '::NumSegments', this=raw('obj', 'arg0'), st=INIT), ONE)
            else:
                N = segs(R, en, f['cls'] if False else facts.strip_targs(f['q']).rsplit('::', 1)[0])
                lo, hi = ZERO, {'knot': iadd(N, ONE), 'seg': N, 'stop': iadd(N, c(2))}[kind]
            a = raw('init', raw('obj', 'arg%d' % i))
            cond = within(i, lo, hi)
            R.sub(required, en, f, 'index range checked before anything is done', cond, 'parameter %d has to be in [%s, %s)' % (i, show(lo), show(hi)))
            R.sub(accepts, en, f, 'every valid index is accepted', lo, hi, i, ilt(lo, hi))
    for q, np_, first, i in NONNULL:
        fs = list(overloads(P, q, np_, first))
        if not fs:
            R.ob('null pointer refused', None, ('altro', q), 'function not found')
        for f in fs:
            en = run(f)
            n += 1
            R.sub(required, en, f, 'null pointer refused before anything is done', nonnull(arg(i)), 'parameter %d must not be null' % i)
    for f in P.find(KPFN + '::KnotPointFunctions'):
        if not f.get('b') or f.get('ctor') not in (1, True) or f.get('sp') in SPECIAL:
            continue
        for i, p in enumerate(f['ps']):
            s = f['T'][p['t']].get('s', '')
            if 'shared_ptr' in s and 'CostFunction' in s:
                en = run(f)
                n += 1
                R.sub(required, en, f, 'null pointer refused before anything is done', nonnull(arg(i)), 'the cost function must not be null')
    for q in ('Evaluate', 'Gradient', 'Hessian'):
        for f in P.find(ALC + '::' + q):
            if not f.get('b'):
                continue
            en = run(f)
            base = [e for e in en.events if e.kind == 'call' and e.extra == 'virtual' and e.name == q]
            for e in base:
                n += 1
                r = deref_ptr(e.recv)
                if r is None:
                    continue
                R.ob('an undefined function is never called', implies(e.pc, nonnull(r)) or (None if contains(r, lambda x: x.op in ('mu', 'hv')) else False), e, 'called through %s' % show(r)[:80]) if not contains(r, lambda x: x.op == 'mu') else None
    R.sub(getdyn, P, run)
    R.sub(assignment, P, run)
    R.sub(complete, P, run)
    R.sub(solving, P)
    R.sub(shape, P)
    R.notes.append('%d entry point parameters' % n)


def con_type(f):
    return 'ZeroCone' if 'ZeroCone' in f['key'].split('(')[0] else 'NegativeOrthant'


def deref_ptr(l):
    """the pointer value a location is reached through"""
    while isinstance(l, T) and l.op in ('fld', 'idx', 'blk'):
        l = l.a[0]
    return l.a[0] if isinstance(l, T) and l.op == 'deref' else None


def getdyn(R, P, run):
    for q in ('GetDynamics',):
        f = P.fn(PROB + '::' + q, 1)
        en = run(f)
        v = en.ret
        R.ob('undefined dynamics are never handed out', implies(en.final.pc, nonnull(v)) or (None if unresolved(v) else False), f, show(v)[:80])


def assignment(R, P, run):
    f = P.fn(ILQR + '::SetTaskAssignment', 1)
    en = run(f)
    a = raw('obj', 'arg0')
    size = INIT.read(fld(a, '#size'))
    N = segs(R, en, ILQR)
    at = lambda i: INIT.read(idx(a, i))
    name = 'a work assignment is accepted only when it is valid'
    dst = R.loc(en, ILQR + '::GetTaskAssignment', st=INIT) if P.find(ILQR + '::GetTaskAssignment') else None
    for cond, what in ((NOT(ilt(size, c(2))), 'fewer than two indices'), (eq(at(ZERO), ZERO, True), 'a first index other than zero'),
                       (eq(at(isub(size, ONE)), iadd(N, ONE), True), 'a last index other than N+1')):
        R.sub(required, en, f, name, cond, 'must refuse %s' % what)
    # strictly increasing
    ok, why = None, 'no scan of the indices found'
    for L in en.loops.values():
        if L.back is None or L.main is None or L.lo is None:
            continue
        m = L.main[0]
        pairs = []
        for d in (0, -1):
            i = iadd(m, c(d))
            lo = isub(L.lo, c(-d)) if d else L.lo
            pairs.append((i, iadd(i, ONE), iadd(L.lo, c(d)), iadd(L.hi, c(d))))
        good = FALSE
        for p in L.pats:
            mu = L.head.read(p) if L.head is not None else None
            b = L.back.read(p)
            if mu is None or b is None or not contains(en.final.pc, lambda x, mu=mu: x is mu):
                continue
            good = OR(good, AND(tobool(b), tobool(mu))) if implies(en.final.pc, tobool(mu)) else good
        prem = AND(L.back.pc, good) if good is not FALSE else L.back.pc
        for i, j, lo, hi in pairs:
            want = ilt(at(i), at(j))
            if implies(prem, want):
                if idiff(lo, ZERO) == 0 and idiff(hi, isub(size, ONE)) == 0 and sat(prem):
                    ok = True
                else:
                    ok, why = False, 'neighbours compared only over [%s, %s)' % (show(lo), show(hi))
                break
        if ok is None and any(contains(t, lambda x: x.op == 'idx' and x.a[0] is a) or a in walk(t) for t in atoms(prem) if True):
            ok, why = False, 'the scan lets neighbours that do not increase pass: %s' % show(prem)[:120]
        if ok:
            break
    if ok is None and not en.loops and not any(contains(t, lambda x: x.op in ('app', 'ret', 'unk')) for t in atoms(en.final.pc)):
        ok, why = False, 'the order of the indices is never looked at'
    R.ob('a work assignment that does not increase strictly is refused', ok, f, why)


def complete(R, P, run):
    f = P.fn(PROB + '::IsFullyDefined', 1)
    en = run(f)
    N = R.val(en, PROB + '::NumSegments', this=THIS, st=INIT)
    for e in en.events:
        if e.kind == 'call' and e.extra == 'virtual':
            p = deref_ptr(e.recv)
            if p is not None:
                R.ob('the completeness test calls nothing that is undefined', implies(e.pc, nonnull(p)) or False, e, '%s under %s' % (show(p)[:60], show(e.pc)[:120]))
    name = 'a problem is complete only when everything is defined'
    done = {}
    for L in en.loops.values():
        if L.back is None or L.main is None or L.lo is None:
            continue
        m = L.main[0]
        good = TRUE
        for p in L.pats:
            mu = L.head.read(p)
            if contains(en.ret, lambda x, mu=mu: x is mu) and implies(tobool(en.ret), tobool(mu)):
                good = AND(good, AND(tobool(L.back.read(p)), tobool(mu)))
        prem = AND(AND(L.back.pc, iteration(L)), good)
        for what, q, hi in (('cost function', 'GetCostFunction', iadd(N, ONE)), ('dynamics', 'GetDynamics', N)):
            v = R.val(en, PROB + '::' + q, this=THIS, st=INIT, args=(m,), n=1)
            if v is None:
                continue
            cond = nonnull(v)
            g = AND(prem, ilt(m, hi))
            if implies(g, cond) and idiff(L.lo, ZERO) == 0 and (idiff(L.hi, hi) == 0 or idiff(L.hi, iadd(N, ONE)) == 0):
                done[what] = True
        x0 = R.val(en, PROB + '::GetInitialStatePointer', this=THIS, st=INIT)
        size = INIT.read(fld(deref(x0), '#rows'))
        dyn = R.val(en, PROB + '::GetDynamics', this=THIS, st=INIT, args=(ZERO,), n=1)
        g = AND(prem, AND(eq(m, ZERO, True), ilt(ZERO, N)))
        dims = [e for e in en.events if e.kind == 'call' and e.extra == 'virtual' and e.name == 'StateDimension']
        if idiff(L.lo, ZERO) == 0:
            done['first'] = not sat(AND(g, ilt(size, ONE)))
            done['dim'] = contains(good, lambda x: x is size) and any(contains(good, lambda x, e=e: x.op in ('app', 'ret') and 'StateDimension' in show(x)) for e in dims)
    for what in ('cost function', 'dynamics'):
        R.ob(name, done.get(what) or (None if not en.loops else False), f, 'a missing %s is not noticed' % what)
    R.ob(name, done.get('first') or (None if 'first' not in done else False), f, 'a missing initial state is not noticed')
    R.ob(name, done.get('dim') or (None if 'dim' not in done else False), f, 'an initial state of the wrong dimension is not noticed')
    # an incomplete problem never reaches the solver
    for f in P.find(ILQR + '::CopyFromProblem'):
        if not f.get('b'):
            continue
        en2 = R.run(None, fn=f, quiet=(PROB + '::IsFullyDefined',))
        ev = [e for e in en2.events if e.kind == 'call' and e.name == 'IsFullyDefined' and e.recv is raw('obj', 'arg0')]
        r = [e.ret for e in ev if getattr(e, 'ret', None) is not None] or [raw('ret', e.id) for e in ev]
        ok = any(implies(en2.final.pc, tobool(x)) for x in r)
        if not ok:
            ok = any(contains(en2.final.pc, lambda z: z.op == 'ret' and any(z.a[0] == e.id for e in ev)) and not sat(AND(en2.final.pc, NOT(tobool(z2)))) for e in ev for z2 in [t for t in walk(en2.final.pc) if t.op == 'ret' and t.a[0] == e.id][:1])
        R.ob('an incomplete problem is refused by the solver', bool(ok), f, show(en2.final.pc)[:150])


def solving(R, P):
    """the solver steps never use a trajectory or an initial state that was not set"""
    for q in ('Solve', 'Rollout', 'Cost', 'UpdateExpansions', 'BackwardPass', 'ForwardPass'):
        for f in P.find(ILQR + '::' + q):
            if not f.get('b') or f['ps'] or f.get('acc') != 0 or q not in ('Solve', 'Cost', 'UpdateExpansions'):
                continue
            z = R.val(None, '', 0) if False else None
            en = R.run(None, fn=f, quiet=(ILQR + '::SolveSetup', ILQR + '::Rollout', ILQR + '::BackwardPass', ILQR + '::ForwardPass', ILQR + '::UpdateConvergenceStatistics', ILQR + '::WrapUp'))
            Z = R.val(en, ILQR + '::GetTrajectory', this=THIS, st=INIT)
            if en.final is None:
                continue
            ok = implies(en.final.pc, nonnull(Z))
            R.ob('the solver refuses to run without a trajectory', ok, f, show(en.final.pc)[:120])


def shape(R, P):
    """the containers the checked indices go into have an entry for every knot point"""
    for f in P.find(PROB + '::Problem'):
        if not f.get('b') or not f.get('ctor') or f.get('sp') in SPECIAL or not f['ps'] or 'int' not in f['T'][f['ps'][0]['t']].get('s', ''):
            continue
        en = R.run(None, fn=f)
        r = P.rec(PROB)
        N = R.val(en, PROB + '::NumSegments', this=THIS)
        for x in r['fs']:
            s = r['T'][x['t']].get('s', '')
            if s.startswith('std::vector<'):
                v = en.final.read(fld(fld(THIS, x['n']), '#size'))
                d = idiff(v, iadd(N, ONE))
                R.ob('every knot point has an entry', True if d == 0 else (None if d is None and unresolved(v) else False), f, '%s has %s entries' % (x['n'], show(v)))
