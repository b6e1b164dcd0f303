"""Constrained solver: step order, status, multipliers, penalties, augmented cost, cones, violation (C15 - C23)."""
from rulelib import *
from rules.kpf import *
from rules.ilqr import *
from rules.ilqr2 import *
from rules.par import pushes

CV = 'altro::constraints::ConstraintValues'
AC = 'altro::augmented_lagrangian::ALCost'
CN = 'altro::constraints::'
KIND = {'eq': '<6, 2, altro::constraints::ZeroCone>', 'ineq': '<6, 2, altro::constraints::NegativeOrthant>'}
DUAL = {'eq': 'IdentityCone', 'ineq': 'NegativeOrthant'}
PRIMAL = {'eq': 'ZeroCone', 'ineq': 'NegativeOrthant'}
CONEFNS = tuple(CN + c_ + '::' + f for c_ in ('IdentityCone', 'NegativeOrthant', 'ZeroCone') for f in ('Projection', 'Jacobian'))
S0 = engine.State()


def cvloc(R, en, g, kind, obj=THIS):
    return R.loc(en, CV + '::' + g, this=obj, st=S0, inst=KIND[kind])


def vecs(R, en, obj):
    """locations of the two constraint vectors of an augmented cost"""
    key = ('vecs', obj.id)
    if key not in R.cache:
        R.cache[key] = {'eq': R.loc(en, AC + '::GetEqualityConstraints', this=obj, st=S0, inst=I62),
                        'ineq': R.loc(en, AC + '::GetInequalityConstraints', this=obj, st=S0, inst=I62)}
    return R.cache[key]


def member(R, en, l):
    """(kind, i, cost object, constraint object) of a location inside a constraint of an augmented cost"""
    x = l
    while isinstance(x, tm.T):
        if x.op in ('fld', 'idx', 'blk'):
            x = x.a[0]
        elif x.op == 'deref':
            p = x.a[0]
            if p.op not in ('init', 'mu', 'hv') or not isinstance(p.a[-1], tm.T):
                return None
            pl = p.a[-1]
            if pl.op == 'idx' and pl.a[0].op == 'fld':
                V = pl.a[0]
                for kind, v in vecs(R, en, V.a[0]).items():
                    if v is V:
                        return kind, pl.a[1], V.a[0], x
            x = pl
        else:
            return None


def knotpart(R, en, obj):
    """index k of the augmented cost object costs_[k]"""
    if obj.op == 'deref' and obj.a[0].op in ('init', 'mu', 'hv') and isinstance(obj.a[0].a[-1], tm.T):
        pl = obj.a[0].a[-1]
        if pl.op == 'idx' and pl.a[0] is alcosts(R, en):
            return pl.a[1]
    return None


def alcosts(R, en):
    if 'alcosts' not in R.cache:
        v = R.val(en, AL + '::GetALCost', st=S0, inst=I62, args=[raw('obj', 'qk')])
        R.cache['alcosts'] = v.a[-1].a[0]
    return R.cache['alcosts']


def nsize(v):
    return S0.read(fld(v, '#size'))


def N_(R, en):
    return R.val(en, AL + '::NumSegments', st=S0, inst=I62)


def members(R, en, evs, getter=None):
    """{kind: [(event, ((k, 0, N+1), (i, 0, size)))]} of the events that touch a constraint (its `getter` field)"""
    out = {'eq': [], 'ineq': []}
    seen = {'eq': set(), 'ineq': set()}
    n1 = [iadd(N_(R, en), ONE), nsize(alcosts(R, en))]
    for e, l in evs:
        for x in ([l] if l.op != 'ite' else [y for _, y in cases(l)]):
            m = member(R, en, x)
            if m is None:
                continue
            kind, i, obj, con = m
            if getter is not None and not under(x, cvloc(R, en, getter, kind, con)):
                continue
            k = knotpart(R, en, obj)
            if k is None:
                continue
            key = (k, i, e.loops)
            if key in seen[kind]:
                continue
            seen[kind].add(key)
            out[kind].append((e, ((k, ZERO, n1), (i, ZERO, nsize(vecs(R, en, obj)[kind])))))
    return out


def fieldstores(en):
    return [(e, e.loc) for e in en.events if e.kind == 'store' and e.loc is not None]


def outer(R):
    """(engine, inner solve event, outer loop)"""
    en = al_solve(R)
    inner = [e for e in calls(en) if facts.strip_targs(e.fn['q']) == ILQR + '::Solve']
    if not inner:
        raise Removed('the constrained solver runs the inner solver', 'no call of the inner Solve', en.root)
    L = en.loops.get(inner[0].loops[0]) if inner[0].loops else None
    return en, inner, L


NAMES = {'eq': 'equality', 'ineq': 'inequality'}


@rule('C15', 'ordering, must-execute and iteration-range analysis of the outer iteration (all constraint kinds and knot points)')
def c15(R):
    en, inner, L = outer(R)
    if L is None:
        raise Removed('outer iterations', 'the inner solve is not inside a loop', inner[0])
    st = fieldstores(en)
    R.ob('every outer iteration solves the unconstrained problem', always_all(en, inner[0], L.key) and len(inner) == 1, inner[0], 'the inner solve is skipped or repeated in some outer iteration')
    R.ob('the inner solve is the solver of this problem', inner[0].recv is R.loc(en, AL + '::GetiLQRSolver', st=S0, inst=I62) or None, inner[0], show(inner[0].recv))
    inl = [(e, l) for e, l in st if L.key in e.loops]
    du = members(R, en, inl, 'GetDuals')
    pe = members(R, en, inl, 'GetPenalty')
    logs = [(n, v, e) for n, v, e in logged(en) if L.key in e.loops]
    for kind in ('eq', 'ineq'):
        R.sub(covers, en, 'the multipliers of every %s constraint at every knot point are updated' % NAMES[kind], du[kind], None, inner[0], L.key)
        for e, _ in du[kind]:
            R.ob('the multiplier update follows the inner solve', e.seq > inner[0].seq, e, 'multipliers are updated before the subproblem is solved')
        go = L.back.pc if L.back is not None else FALSE
        # penalties: exactly in the iterations that go on
        ps = pe[kind]
        if L.back is not None:
            R.sub(covers, en, 'the penalties of every %s constraint at every knot point are scaled when iterating goes on' % NAMES[kind], ps, None, inner[0], L.key, given=go)
        for e, _ in ps:
            first = en.loops[e.loops[e.loops.index(L.key) + 1]].s0.pc if e.loops[-1] != L.key else e.pc
            R.ob('penalties are scaled only when iterating goes on', implies(first, go, assumed(en)) , e, 'penalties are scaled although the iteration ends')
            for d, _ in du['eq'] + du['ineq']:
                R.ob('multipliers are updated with the penalties of the subproblem', d.seq < e.seq, e, 'penalties are scaled before the multiplier update')
            for n, v, g in logs:
                if n == 'pen':
                    R.ob('the penalty of the subproblem is recorded', g.seq < e.seq, e, 'penalties are scaled before they are recorded')
    for n in ('viol', 'pen'):
        ls = [e for n_, v, e in logs if n_ == n]
        ok = bool(ls) and implies(iteration(L), OR(*[e.pc for e in ls if e.loops[-1] == L.key] or [FALSE]), assumed(en))
        R.ob('"%s" is recorded in every outer iteration' % n, ok, ls[0] if ls else inner[0], 'no Log("%s") on some path of an outer iteration' % n)
        for e in ls:
            R.ob('"%s" is recorded after the inner solve' % n, e.seq > inner[0].seq, e, 'recorded before the subproblem is solved')
    # the decision uses what was recorded in this iteration
    sl = al_status(R, en)
    rec = [e.seq for n, v, e in logs if n in ('viol', 'pen')]
    for e in en.events:
        if e.kind == 'store' and e.loc is sl and L.key in e.loops:
            R.ob('termination is tested after recording', not rec or e.seq > max(rec), e, 'the status is decided before violation and penalty are recorded')
            for kind in pe:
                for p, _ in pe[kind]:
                    R.ob('termination is tested before the penalties are scaled', e.seq < p.seq, e, 'the status is decided after the penalties were scaled')


def judge(pc, cond, asm, key):
    """pc implies cond; undecided when pc tests values computed in other loops or by code that was not followed"""
    if implies(pc, cond, asm):
        return True
    own = set()
    for a in atoms(cond):
        own |= set(walk(a))
    for a in atoms(pc):
        if contains(a, lambda x: x not in own and (x.op in ('hv', 'undef', 'unk', 'pat') or x.op == 'mu' and x.a[0] != key)):
            return None
    return False


# ---------------------------------------------------------------- C16
@rule('C16', 'path-condition analysis of every status assignment of the constrained solver; exit analysis of its loop')
def c16(R):
    P = R.P
    S = {k: c(P.enum('altro::SolverStatus', k)) for k in ('kSolved', 'kUnsolved', 'kMaxPenalty', 'kMaxOuterIterations', 'kMaxIterations')}
    en = R.run(AL + '::Solve', inst=I62, quiet=STATS + (ILQR + '::Solve', 'altro::SolverLogger::Clear', 'altro::SolverStats::ProfilerOutputToFile', 'altro::SolverStats::SetCapacity'))
    inner = [e for e in calls(en) if facts.strip_targs(e.fn['q']) == ILQR + '::Solve']
    if not inner or not inner[0].loops:
        raise Removed('the constrained solver iterates the inner solver', 'no call of the inner Solve in a loop', en.root)
    L = en.loops[inner[0].loops[0]]
    sl = al_status(R, en)
    il = R.loc(en, AL + '::GetiLQRSolver', st=S0, inst=I62)
    stats = al_stats(R, en)
    opts = R.loc(en, AL + '::GetOptions', st=S0, inst=I62, pred=lambda f: not f.get('cst'))

    def last(st, vec):
        v = fld(stats, vec)
        return st.read(idx(v, isub(st.read(fld(v, '#size')), ONE)))
    sts = [e for e in en.events if e.kind == 'store' and e.loc is sl and L.key in e.loops]
    for e in sts:
        o = lambda n: e.st.read(fld(opts, n))
        s_ = lambda n: e.st.read(fld(stats, n))
        ist = R.val(en, ILQR + '::GetStatus', this=il, st=e.st, inst=I62)
        insolved = tobool(eq(ist, S['kSolved'], True))
        feasible = tobool(flt(last(e.st, 'violations'), o('constraint_tolerance')))
        table = {
            S['kMaxPenalty']: (tobool(flt(o('maximum_penalty'), last(e.st, 'max_penalty'))), 'the recorded maximum penalty exceeds maximum_penalty'),
            S['kMaxOuterIterations']: (tobool(NOT(ilt(s_('iterations_outer'), o('max_iterations_outer')))), 'iterations_outer has reached max_iterations_outer'),
            S['kMaxIterations']: (tobool(NOT(ilt(s_('iterations_total'), o('max_iterations_total')))), 'iterations_total has reached max_iterations_total'),
        }
        for p, v in cases(e.val):
            pc = AND(e.pc, p)
            if not sat(pc):
                continue
            asm = assumed(en, e)
            if v is S['kSolved']:
                R.ob('solved is reported only after a solved inner problem', judge(pc, insolved, asm, L.key), e, 'the constrained solver reports solved although the inner solver may not have')
                R.ob('solved is reported only when feasible', judge(pc, feasible, asm, L.key), e, 'the constrained solver reports solved without the recorded violation being below constraint_tolerance')
                viol = last(e.st, 'violations')
                R.ob('solved is reported only when feasible', not sat(when_nan(pc, lambda t: t is viol)), e, 'the constrained solver reports solved when the recorded violation is not a number')
            elif v is ist:
                R.ob('an inner status is passed on only on failure', implies(pc, feasible, asm) or judge(pc, NOT(insolved), asm, L.key), e, 'the inner status solved is passed on without testing the violation')
            elif v in table:
                cnd, txt = table[v]
                R.ob('a limit status is reported only when its limit is exceeded', judge(pc, cnd, asm, L.key), e, 'status %s is reported on a path on which it is not established that %s' % (show(v), txt))
            elif v.op == 'c':
                R.ob('only defined outcomes are reported', False, e, 'the status is set to %s' % show(v))
            else:
                R.ob('only defined outcomes are reported', None, e, show(v)[:200])
        # the inner failure wins
        fail = AND(iteration(L), NOT(insolved))
        for p, v in cases(e.val):
            if v is not ist and sat(AND(e.pc, p, fail)):
                over = OR(*[x.pc for x in sts if x.seq > e.seq and x.val is R.val(en, ILQR + '::GetStatus', this=il, st=x.st, inst=I62)] or [FALSE])
                R.ob('an inner failure is passed on unchanged', implies(AND(e.pc, p, fail), over), e, 'the status %s replaces the failure of the inner solver' % show(v))
    if not sts:
        raise Removed('the constrained solver reports its outcome', 'no assignment of the status in the outer loop', en.root)
    cover = OR(*[e.pc for e in sts])
    ist0 = R.val(en, ILQR + '::GetStatus', this=il, st=sts[0].st, inst=I62)
    it = iteration(L)
    asm = assumed(en)
    back = L.back.pc if L.back is not None else FALSE
    R.ob('every exit from the outer loop assigns the status', implies(AND(it, NOT(back)), cover, asm), sts[0], 'the loop can be left in the middle of an iteration without a status')
    R.ob('iterating does not go on after an inner failure', not sat(AND(back, NOT(tobool(eq(ist0, S['kSolved'], True))))) , inner[0], 'another outer iteration starts although the inner solver failed')
    # what must end the solve
    b = sts[0].st
    o = lambda n: b.read(fld(opts, n))
    s_ = lambda n: b.read(fld(stats, n))
    for cnd, txt in ((tobool(flt(last(b, 'violations'), o('constraint_tolerance'))), 'the recorded violation is below constraint_tolerance'),
                     (tobool(flt(o('maximum_penalty'), last(b, 'max_penalty'))), 'the recorded maximum penalty exceeds maximum_penalty'),
                     (tobool(NOT(ilt(s_('iterations_outer'), o('max_iterations_outer')))), 'iterations_outer has reached max_iterations_outer'),
                     (tobool(NOT(ilt(s_('iterations_total'), o('max_iterations_total')))), 'iterations_total has reached max_iterations_total')):
        R.ob('success and an exceeded limit end the solve', judge(back, NOT(cnd), asm, L.key), sts[0], 'another outer iteration starts although %s' % txt)
    if L.back is not None and L.cond is not None and not L.do:
        sub = {m.id: L.back.read(m.a[-1]) for m in (x for a in atoms(tobool(L.cond)) for x in walk(a)) if m.op == 'mu' and m.a[0] == L.key and isinstance(m.a[-1], tm.T)}
        nxt = tobool(subst(L.cond, sub))
        ok = implies(back, nxt, asm)
        R.ob('the loop ends only with a status', ok or (None if any(unresolved(v) and not contains(v, lambda x: x.op == 'mu') for v in sub.values()) else False), sts[0], 'after an iteration without a status the loop can end by its own condition, leaving the status unsolved')


# ---------------------------------------------------------------- element-wise terms
def elem(t, i):
    """i-th entry of a vector-valued term"""
    o = t.op
    if o == 'ite':
        return map1(lambda x: elem(x, i), t)
    if o in ('+', '-'):
        return raw(o, elem(t.a[0], i), elem(t.a[1], i))
    if o == 'neg':
        return raw(o, elem(t.a[0], i))
    nf = NF()
    if o == '*':
        a, b = t.a
        if a.op == 'app' and a.a[0] == 'diag':
            return raw('*', elem(a.a[1], i), elem(b, i))
        if nf.scalar(a):
            return raw('*', a, elem(b, i))
        if nf.scalar(b):
            return raw('*', elem(a, i), b)
    if o == '/' and nf.scalar(t.a[1]):
        return raw('/', elem(t.a[0], i), t.a[1])
    if o == 'app':
        n = t.a[0]
        if n == 'Zero':
            return ZERO
        if n == 'Const':
            return t.a[1]
        if n in ('E.cwiseMin', 'E.cwiseMax', 'E.min', 'E.max') and len(t.a) == 3:
            x = elem(t.a[1], i)
            y = t.a[2] if nf.scalar(t.a[2]) else elem(t.a[2], i)
            cn = flt(y, x) if 'in' in n else flt(x, y)
            return ite(tobool(cn), y, x)
        if n in ('E.cwiseProduct',) and len(t.a) == 3:
            return raw('*', elem(t.a[1], i), elem(t.a[2], i))
        if n in ('E.array', 'E.matrix', 'E.eval', 'E.noalias'):
            return elem(t.a[1], i)
    if o == 'init' and isinstance(t.a[-1], tm.T):
        return S0.read(idx(t.a[-1], i))
    if o in ('mu', 'hv') and isinstance(t.a[-1], tm.T):
        return raw(o, *(t.a[:-1] + (idx(t.a[-1], i),)))
    return raw('sel', t, ('i', i))


def scal(t):
    """resolve the selections of single entries inside a scalar term"""
    m = {}

    def go(x):
        if x.id in m:
            return m[x.id]
        r = x
        if x.op == 'sel' and x.a[1][0] == 'i' and len(x.a[1]) == 2:
            r = elem(x.a[0], x.a[1][1])
            if r is not x and r.op != 'sel':
                r = go(r)
        elif x.op in ('+', '-', '*', '/', 'neg'):
            r = raw(x.op, *[go(y) for y in x.a])
        m[x.id] = r
        return r
    return map1(go, t) if t.op == 'ite' else go(t)


def scalar_nf():
    return NF(scalar=lambda t: True)


def ratio(p, q):
    """p = k q for a constant k: k, else None"""
    if not p or not q or set(p) != set(q):
        return None
    ks = {p[m] / q[m] for m in p}
    return ks.pop() if len(ks) == 1 else None


def affine(p, q):
    """p = k q + d for constants k != 0 and d: (k, d), else None"""
    if not p or not q:
        return None
    one = ((), ())
    d = p.get(one, 0) if one not in q else 0
    k = ratio({m: x for m, x in p.items() if m != one} if one not in q else p, q)
    return (k, d) if k else None


def signleaves(t, w):
    """{-1, 0, 1: leaves of t when w is negative, zero, positive}; None among them when t depends on something else than w"""
    nf = scalar_nf()
    pw = nf.nf(scal(w))
    cs = list(cases(t))
    form = {}
    for p, v in cs:
        for at in atoms(p):
            if at.id in form:
                continue
            form[at.id] = None
            if at.op in ('flt', 'fle', 'ilt0', 'ieq0', 'eq'):
                d = raw('-', at.a[0], at.a[1]) if len(at.a) == 2 else at.a[0]
                try:
                    form[at.id] = affine(nf.nf(scal(d)), pw)
                except Exception:
                    pass
    # where a comparison changes its answer
    bs = sorted({-d / k for k, d in (f for f in form.values() if f is not None)} | {0})
    pts = [bs[0] - 1] + bs + [(a + b) / 2 for a, b in zip(bs, bs[1:])] + [bs[-1] + 1]
    out = {-1: set(), 0: set(), 1: set()}
    for x in pts:
        for p, v in cs:
            ok = True
            for at in atoms(p):
                f = form[at.id]
                if f is None:
                    ok = False
                    continue
                y = f[0] * x + f[1]
                tv = {'flt': y < 0, 'ilt0': y < 0, 'fle': y <= 0, 'ieq0': y == 0, 'eq': y == 0}[at.op]
                p = AND(p, mk(at, TRUE, FALSE) if tv else mk(at, FALSE, TRUE))
            if sat(p):
                out[(x > 0) - (x < 0)] |= {v} if ok else {v, None}
    return out


def bysign(t, w):
    """{-1, 0, 1: leaf of t when w is negative, zero, positive}; a leaf is None when it depends on something else"""
    return {k: next(iter(l)) if len(l) == 1 else None for k, l in signleaves(t, w).items()}


def entries(R, en, loc, st=None):
    """[(index term, value term, covered rows or None, event)] describing every entry of the vector at loc in the final state;
    None when not understood"""
    st = st or en.final
    v = st.read(loc)
    if v.op == 'mu' and v.a[-1] is loc:
        L = en.loops.get(v.a[0])
        out = []
        for e in en.events:
            if e.kind == 'store' and e.loops and e.loops[-1] == v.a[0] and e.loc is not None and under(e.loc, loc):
                if e.loc.op != 'idx' or e.loc.a[0] is not loc:
                    return None
                out.append((e.loc.a[1], e.val, interval(en, e, e.loc.a[1]), e))
        # what was there before the loop must be untouched input
        return out or None
    i = raw('obj', 'row')
    return [(i, elem(v, i), 'all', None)]


def rows_of(R, en, loc, sizes):
    return [engine.State().read(fld(l, '#rows')) for l in sizes]


def is_projection(R, en, name, loc, w_of, cone, rows, at, st=None):
    """every entry of the vector at loc is the projection of w onto the cone ('NegativeOrthant', 'IdentityCone', 'ZeroCone')"""
    es = entries(R, en, loc, st)
    if es is None:
        return R.ob(name, None, at, 'value %s' % show(en.final.read(loc))[:200])
    ivs = []
    for i, v, iv, e in es:
        a_ = e or at
        w = scal(w_of(i))
        v = scal(v)
        want = {'NegativeOrthant': {-1: w, 1: ZERO, 0: None}, 'IdentityCone': {-1: w, 0: w, 1: w}, 'ZeroCone': {-1: ZERO, 0: ZERO, 1: ZERO}}[cone]
        nf = scalar_nf()
        if cone == 'NegativeOrthant':
            got = [(k, None if None in l else g) for k, l in signleaves(v, w).items() for g in l if g is not None]
        else:
            got = [(k, v) for k in (-1, 0, 1)]
        for s_, g in got:
            wv = want[s_]
            if g is None:
                R.ob(name, None, a_, 'depends on more than the sign of the entry: %s' % show(v)[:300])
            elif wv is None:
                ok = any(nf.eq(scal(g), x) for x in (w, ZERO))
                R.ob(name, True if ok else (None if opaque_atoms(g, w) else False), a_, 'entry for a zero argument: found %s' % show(g)[:300])
            else:
                ok = nf.eq(scal(g), wv)
                R.ob(name, True if ok else (None if opaque_atoms(g, w) else False), a_, 'entry for %s argument: found %s, required %s' % ({-1: 'a negative', 0: 'a zero', 1: 'a positive'}[s_], show(g)[:300], show(wv)[:200]))
        if iv == 'all':
            return
        ivs.append(iv[:2] if iv else None)
        if e is not None:
            R.ob(name + ' (every entry)', always_all(en, e) or (None if unresolved_pc(en, e) else False), e, 'entries are skipped on some path')
    if None in ivs:
        return R.ob(name + ' (range)', None, at, 'range unknown')
    rs = [tiles(ivs, ZERO, r) for r in rows]
    R.ob(name + ' (range)', True if True in rs else (None if None in rs else False), at, 'entries covered: %s of [0, %s)' % ([(show(a), show(b)) for a, b in ivs], ' or '.join(show(r) for r in rows)))


def opaque_atoms(g, w):
    """g mentions values the analysis does not understand beyond those of w"""
    ws = set(walk(w))
    return contains(g, lambda x: x.op in UNRES and x not in ws and not any(y in ws for y in ()))


# ---------------------------------------------------------------- C17
QUERIES = ('AugLag', 'AugLagGradient', 'AugLagHessian', 'Evaluate', 'Jacobian', 'CalcExpansion', 'MaxViolation', 'GetViolation', 'GetConstraintInfo',
           'MaxPenalty', 'SetPenaltyScaling', 'OutputDimension', 'GetConstraint', 'GetConstraintValue')
ACQUERIES = ('Evaluate', 'Gradient', 'Hessian', 'MaxViolation', 'MaxPenalty', 'GetConstraintInfo', 'NumConstraints')
ALQUERIES = ('MaxViolation', 'GetMaxViolation', 'GetMaxPenalty', 'UpdateConvergenceStatistics', 'GetConstraintInfo', 'IsDone', 'NumConstraints', 'SetPenaltyScaling')


def cvrun(R, name, kind, **kw):
    key = ('cv', name, kind, tuple(sorted(kw)))
    if key not in R.cache:
        fs = [f for f in R.P.find(CV + '::' + name, inst=KIND[kind])]
        R.cache[key] = R.run(None, fn=fs[0], **kw) if fs else None
    return R.cache[key]


def cvctor(R, kind):
    fs = [f for f in R.P.fns.values() if f.get('ctor') and (f.get('cls') or '') == CV + KIND[kind] and len(f['ps']) == 3]
    return R.run(None, fn=fs[0]) if fs else None


def written(R, en, getter, kind=None):
    """writes to the constraint field behind `getter`: [(event, how)]"""
    out = []
    for l, e, how in par_writes(en):
        for x in ([l] if l.op != 'ite' else [y for _, y in cases(l)]):
            if kind is not None:
                if under(x, cvloc(R, en, getter, kind)):
                    out.append((e, how))
            else:
                m = member(R, en, x)
                if m is not None and under(x, cvloc(R, en, getter, m[0], m[3])):
                    out.append((e, how))
    return out


def par_writes(en):
    from rules.par import writes
    return writes(en)


def unwritten(R, getter, what, cvextra=(), acextra=(), alextra=()):
    for kind in ('eq', 'ineq'):
        for n in QUERIES + cvextra:
            en = cvrun(R, n, kind)
            if en is None:
                continue
            ws = written(R, en, getter, kind)
            R.ob('%s do not change in %s' % (what, n), not ws, ws[0][0] if ws else en.root, 'written by %s (%s)' % (n, ws[0][1] if ws else ''))
    for cls, names in ((AC, ACQUERIES + acextra), (AL, ALQUERIES + alextra)):
        for n in names:
            for f in R.P.find(cls + '::' + n, inst=I62):
                if '<' in f['key'].split('::')[-1].split('(')[0] and not f.get('b'):
                    continue
                key = ('q', f['key'])
                if key not in R.cache:
                    R.cache[key] = R.run(None, fn=f, quiet=STATS)
                en = R.cache[key]
                ws = written(R, en, getter)
                R.ob('%s do not change in %s' % (what, n), not ws, ws[0][0] if ws else en.root, 'written (%s)' % (ws[0][1] if ws else ''))


@rule('C17', 'symbolic normal form of the multiplier update per element and cone; whole-class write-effect analysis of the multipliers')
def c17(R):
    for kind in ('eq', 'ineq'):
        en = cvrun(R, 'UpdateDuals', kind)
        if en is None:
            raise Removed('multipliers can be updated', 'ConstraintValues::UpdateDuals is gone', None)
        lam, pen, cc = (cvloc(R, en, g, kind) for g in ('GetDuals', 'GetPenalty', 'GetConstraintValue'))

        def w(i):
            return raw('-', S0.read(idx(lam, i)), raw('*', S0.read(idx(pen, i)), S0.read(idx(cc, i))))
        R.sub(is_projection, en, 'the updated %s multiplier is the projected step' % NAMES[kind], lam, w, DUAL[kind], rows_of(R, en, lam, (lam, pen, cc)), en.root)
        for g, what in (('GetPenalty', 'penalties'), ('GetConstraintValue', 'constraint values')):
            ws = written(R, en, g, kind)
            R.ob('a multiplier update leaves the %s alone' % what, not ws, ws[0][0] if ws else en.root, '%s are written during the multiplier update' % what)
        en = cvrun(R, 'ResetDualVariables', kind)
        if en is None:
            raise Removed('multipliers can be reset', 'ConstraintValues::ResetDualVariables is gone', None)
        R.sub(is_projection, en, 'a reset %s multiplier is zero' % NAMES[kind], lam, lambda i: ZERO, 'ZeroCone', rows_of(R, en, lam, (lam, pen, cc)), en.root)
        en = cvctor(R, kind)
        if en is not None:
            R.sub(is_projection, en, '%s multipliers start at zero' % NAMES[kind], lam, lambda i: ZERO, 'ZeroCone', rows_of(R, en, lam, (lam, pen, cc)), en.root)
    R.sub(unwritten, 'GetDuals', 'multipliers', ('SetPenalty', 'UpdatePenalties'), ('UpdatePenalties', 'SetPenalty', 'SetPenaltyScaling'), ('UpdatePenalties', 'SetPenalty'))
    # the constrained solve writes them in the update and the reset only
    en = al_solve(R)
    ok = {CV + '::UpdateDuals', CV + '::ResetDualVariables'}
    for e, how in written(R, en, 'GetDuals'):
        via = {facts.strip_targs(R.P.fns[f]['q']) for f, _, _ in e.stack if f in R.P.fns} | {facts.strip_targs(R.P.fns[e.fkey]['q']) if e.fkey in R.P.fns else ''}
        R.ob('the solver changes multipliers only by update and reset', True if via & ok else None, e, 'multipliers are written outside the update (%s)' % how)


# ---------------------------------------------------------------- C18
@rule('C18', 'guarded-store, symbolic-value and coverage analysis of penalties and penalty scalings')
def c18(R):
    for kind in ('eq', 'ineq'):
        en0 = cvctor(R, kind)
        lam, pen, cc = (cvloc(R, en0, g, kind) for g in ('GetDuals', 'GetPenalty', 'GetConstraintValue'))
        rows = rows_of(R, en0, pen, (lam, pen, cc))
        sv = R.val(en0, CV + '::GetPenaltyScaling', st=S0, inst=KIND[kind])
        sloc = sv.a[-1]
        i = raw('obj', 'row')
        v = elem(en0.final.read(pen), i)
        R.ob('penalties start at one', cv(v) == 1 or (None if unresolved(v) else False), en0.root, 'penalty after construction: %s' % show(v)[:200])
        v = en0.final.read(sloc)
        R.ob('the penalty scaling starts at one or more', (cv(v) >= 1) if cv(v) is not None else (None if unresolved(v) else False), en0.root, 'scaling after construction: %s' % show(v)[:100])
        # setters
        en = cvrun(R, 'SetPenalty', kind)
        if en is None:
            raise Removed('penalties can be set', 'ConstraintValues::SetPenalty is gone', None)
        arg = S0.read(raw('obj', 'arg0'))
        es = entries(R, en, pen)
        for j, v, iv, e in es or ():
            R.ob('SetPenalty stores the given value', scalar_nf().eq(scal(v), arg) or (None if unresolved(v) else False), e or en.root, 'stored %s' % show(v)[:200])
        ss = [e for e in en.events if e.kind == 'store' and e.loc is not None and under(e.loc, pen)]
        R.ob('SetPenalty sets the penalty', bool(ss), ss[0] if ss else en.root, 'no store to the penalty')
        for e in ss:
            R.ob('only a positive penalty is accepted', implies(AND(e.pc, assumed(en, e)), tobool(flt(ZERO, arg))), e, 'the penalty is stored without the assertion that it is positive')
        en = cvrun(R, 'SetPenaltyScaling', kind)
        if en is None:
            raise Removed('penalty scalings can be set', 'ConstraintValues::SetPenaltyScaling is gone', None)
        ss = [e for e in en.events if e.kind == 'store' and e.loc is sloc]
        R.ob('SetPenaltyScaling sets the scaling', bool(ss), ss[0] if ss else en.root, 'no store to the scaling')
        for e in ss:
            R.ob('SetPenaltyScaling stores the given value', e.val is arg or (None if unresolved(e.val) else False), e, 'stored %s' % show(e.val)[:200])
            R.ob('only a scaling of at least one is accepted', implies(AND(e.pc, assumed(en, e)), tobool(fle(ONE, arg))), e, 'the scaling is stored without the assertion that it is at least one')
        # the update
        en = cvrun(R, 'UpdatePenalties', kind)
        if en is None:
            raise Removed('penalties can be scaled', 'ConstraintValues::UpdatePenalties is gone', None)
        R.sub(is_projection, en, 'an update multiplies the %s penalty by the scaling' % NAMES[kind], pen, lambda j: raw('*', S0.read(idx(pen, j)), sv), 'IdentityCone', rows, en.root)
        ws = [e for e in en.events if e.kind == 'store' and e.loc is sloc]
        R.ob('an update leaves the scaling alone', not ws, ws[0] if ws else en.root, 'the scaling changes during the update')
        for n in QUERIES + ('UpdateDuals', 'ResetDualVariables', 'SetPenalty'):
            if n == 'SetPenaltyScaling':
                continue
            en = cvrun(R, n, kind)
            if en is not None:
                ws = [e for l, e, h in par_writes(en) if l is sloc]
                R.ob('the scaling does not change in %s' % n, not ws, ws[0] if ws else en.root, 'the scaling is written')
    R.sub(unwritten, 'GetPenalty', 'penalties', ('UpdateDuals', 'ResetDualVariables'), ('UpdateDuals', 'ResetDualVariables', 'SetPenaltyScaling'), ('UpdateDuals', 'ResetDualVariables'))
    # setting on the solver reaches everything
    for n, getter in (('SetPenalty', 'GetPenalty'), ('SetPenaltyScaling', None)):
        en = R.run(AL + '::' + n, inst=I62)
        arg = S0.read(raw('obj', 'arg0'))
        st = fieldstores(en)
        if getter is None:
            st = [(e, l) for e, l in st if (lambda m: m is not None and l is R.val(en, CV + '::GetPenaltyScaling', this=m[3], st=S0, inst=KIND[m[0]]).a[-1])(member(R, en, l))]
        ms = members(R, en, st, getter)
        for kind in ('eq', 'ineq'):
            R.sub(covers, en, '%s on the solver reaches every %s constraint at every knot point' % (n, NAMES[kind]), ms[kind], None, en.root)
            for e, _ in ms[kind]:
                v = elem(e.val, raw('obj', 'row')) if getter else e.val
                keeps = getter is None and e.st is not None and v.op == 'ite' and any(x is e.st.read(e.loc) for _, x in cases(v))
                R.ob('%s on the solver passes the value on' % n, scalar_nf().eq(v, arg) or (False if keeps else None if unresolved(v) else False), e, 'stored %s' % show(v)[:200])
