"""Knot point expansion, gains, cost-to-go and the backward sweep (C04, C05, C06)."""
from rulelib import *

Q = 'altro::ilqr::KnotPointFunctions'
CE = 'altro::ilqr::CostExpansion'
DE = 'altro::ilqr::DynamicsExpansion'
I62 = '<6, 2>'


class Kpf:
    """pre/post values of one knot point through its public getters"""

    def __init__(self, R, en, st, this=THIS):
        self.R, self.en, self.st, self.this = R, en, st, this

    def exp(self, which):
        R, en = self.R, self.en
        base = R.loc(en, Q + '::' + which, self.this, self.st, inst=I62)
        d = {}
        for g in ('dxdx', 'dxdu', 'dudu', 'dx', 'du'):
            l = R.loc(en, CE + '::' + g, base, self.st, inst=I62)
            d[g] = map1(lambda x: self.st.read(x), l) if l.op == 'ite' else self.st.read(l)
        return d

    def AB(self):
        base = self.R.loc(self.en, Q + '::GetDynamicsExpansion', self.this, self.st, inst=I62)
        return tuple(self.st.read(self.R.loc(self.en, DE + '::' + g, base, self.st, inst=I62)) for g in ('GetA', 'GetB'))

    def get(self, g):
        return self.R.val(self.en, Q + '::' + g, self.this, self.st, inst=I62)

    def delta(self, nf):
        """(linear, quadratic) predicted change terms, read off GetCostToGoDelta(alpha) as a polynomial in alpha"""
        al = raw('obj', 'ALPHA')
        v = self.R.val(self.en, Q + '::GetCostToGoDelta', self.this, self.st, args=[al], inst=I62)
        p = nf.nf(v)
        a = self.st.read(al)
        lin_, quad = {}, {}
        for (sc, ms), k in p.items():
            n = sum(1 for x in sc if x == a.id)
            rest = tuple(x for x in sc if x != a.id)
            if n == 1:
                lin_[(rest, ms)] = k
            elif n == 2:
                quad[(rest, ms)] = k
            else:
                return None
        return lin_, quad


EXPS = ('dxdx', 'dxdu', 'dudu', 'dx', 'du')


def SYM(*ts):
    return lambda t: t in ts


@rule('C05', 'non-commutative symbolic normal forms of the sweep steps compared with the Riccati equations')
def c05(R):
    P = R.P
    f = R.P.fn
    # sizes agree: CostExpansion::operator= asserts fixed dimensions, which hold by construction
    m = {}
    for name in ('CalcActionValueExpansion', 'RegularizeActionValue', 'CalcGains', 'CalcCostToGo', 'CalcTerminalCostToGo'):
        m[name] = R.run(Q + '::' + name, inst=I62)

    def T_(x):
        return app('transpose', x)

    def mul(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = raw('*', r, x)
        return r

    def plus(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = raw('+', r, x)
        return r
    frame = {}
    for name, en in m.items():
        if en.final is None:
            R.ob(name + ' completes', False, en.root, 'no normal exit')
            return
        frame[name] = (Kpf(R, en, engine.State()), Kpf(R, en, en.final))

    def unchanged(name, what, pre, post, nf, fnrec):
        for k in pre:
            R.eqv('%s leaves %s unchanged' % (name, what), nf, post[k], pre[k], fnrec, '%s.%s after %s' % (what, k, name))

    # --- action value expansion
    en = m['CalcActionValueExpansion']
    nf = NF()
    pre, post = frame['CalcActionValueExpansion']
    l, q = pre.exp('GetCostExpansion'), post.exp('GetActionValueExpansion')
    A, B = pre.AB()
    S, sv = engine.State().read(raw('obj', 'arg0')), engine.State().read(raw('obj', 'arg1'))
    # second derivatives of the scalar cost are symmetric; by induction over the sweep so are S and the blocks formed from it
    nf = NF(sym=SYM(l['dxdx'], l['dudu'], S))
    want = {'dxdx': plus(l['dxdx'], mul(T_(A), S, A)), 'dxdu': plus(l['dxdu'], mul(T_(A), S, B)),
            'dudu': plus(l['dudu'], mul(T_(B), S, B)), 'dx': plus(l['dx'], mul(T_(A), sv)), 'du': plus(l['du'], mul(T_(B), sv))}
    for k in EXPS:
        R.eqv('action value %s' % k, nf, q[k], want[k], en.root, 'action-value expansion block ' + k)
    unchanged('CalcActionValueExpansion', 'cost expansion', l, post.exp('GetCostExpansion'), nf, en.root)
    # --- regularization
    en = m['RegularizeActionValue']
    nf = NF()
    pre, post = frame['RegularizeActionValue']
    q0, q1, qr = pre.exp('GetActionValueExpansion'), post.exp('GetActionValueExpansion'), post.exp('GetActionValueExpansionRegularized')
    unchanged('RegularizeActionValue', 'unregularized action value', q0, q1, nf, en.root)
    rho = engine.State().read(raw('obj', 'arg0'))
    ctl = P.enum('altro::BackwardPassRegularization', 'kControlOnly') if 'altro::BackwardPassRegularization' in P.enums else 0
    kind = tobool(eq(engine.State().read(raw('obj', 'arg1')), c(ctl), True)) if len(en.root['ps']) > 1 else TRUE
    for k in EXPS:
        w = q0[k]
        if k == 'dudu':
            w = plus(w, mul(app('Identity', c(2), c(2)), rho))
        got = restrict(qr[k], kind)
        R.eqv('regularized %s' % k, nf, got, w, en.root, 'regularized action-value block ' + k)
    # the default of the regularization kind must be the one the sweep relies on
    # --- gains
    en = m['CalcGains']
    nf = NF()
    pre, post = frame['CalcGains']
    qr = pre.exp('GetActionValueExpansionRegularized')
    nf = NF(sym=SYM(qr['dxdx'], qr['dudu']))
    K1, d1 = post.get('GetFeedbackGain'), post.get('GetFeedforwardGain')
    ret = en.ret
    suc = success(R, ret)
    # the reported status is the outcome of factorizing the regularized control Hessian
    fac = [x for x in walk(ret) if x.op == 'app' and x.a[0] == 'info'] if ret is not None else []
    okr = None
    if fac:
        a = fac[0].a[1]
        okr = len(set(fac)) == 1 and a.op == 'app' and a.a[0] in ('LLT', 'LDLT') and nf.eq(a.a[1], qr['dudu']) and implies(suc, tobool(eq(fac[0], c(0), True)))
    elif ret is not None and not unresolved(ret):
        okr = False
    R.ob('CalcGains reports the factorization', okr, en.root, 'returned status %s is not the outcome of factorizing the regularized control Hessian' % (show(ret)[:200] if ret is not None else None))
    iq = app('LLT', qr['dudu'])
    wantK = raw('neg', app('E.solve', iq, T_(qr['dxdu'])))
    wantd = raw('neg', app('E.solve', iq, qr['du']))
    for nm, got, w in (('feedback gain', K1, wantK), ('feedforward gain', d1, wantd)):
        for leaf in leaves(restrict(got, suc)):
            R.eqv('%s when factorized' % nm, nf, leaf, w, en.root, nm)
    unchanged('CalcGains', 'action value', pre.exp('GetActionValueExpansion'), post.exp('GetActionValueExpansion'), nf, en.root)
    # --- cost to go
    en = m['CalcCostToGo']
    nf = NF()
    pre, post = frame['CalcCostToGo']
    q = pre.exp('GetActionValueExpansion')
    nf = NF(sym=SYM(q['dxdx'], q['dudu']))
    K, d = pre.get('GetFeedbackGain'), pre.get('GetFeedforwardGain')
    half = c(Fraction(1, 2))
    wS = plus(q['dxdx'], mul(T_(K), q['dudu'], K), mul(T_(K), T_(q['dxdu'])), mul(q['dxdu'], K))
    ws = plus(q['dx'], mul(T_(K), q['dudu'], d), mul(T_(K), q['du']), mul(q['dxdu'], d))
    R.eqv('cost-to-go Hessian', nf, post.get('GetCostToGoHessian'), wS, en.root, 'cost-to-go Hessian')
    R.eqv('cost-to-go gradient', nf, post.get('GetCostToGoGradient'), ws, en.root, 'cost-to-go gradient')
    dv = post.delta(nf)
    if dv is None:
        R.ob('cost-to-go change is alpha, alpha^2', False, f(Q + '::GetCostToGoDelta', inst=I62), 'GetCostToGoDelta(alpha) is not alpha*d1 + alpha^2*d2')
    else:
        w1 = nf.nf(app('E.dot', d, q['du']))
        w2 = nf.scale(nf.nf(app('E.dot', d, mul(q['dudu'], d))), Fraction(1, 2))
        R.ob('linear predicted change', dv[0] == w1, en.root, 'found %s, required %s' % (nf.show(dv[0])[:300], nf.show(w1)[:300]))
        R.ob('quadratic predicted change', dv[1] == w2, en.root, 'found %s, required %s' % (nf.show(dv[1])[:300], nf.show(w2)[:300]))
    # --- terminal
    en = m['CalcTerminalCostToGo']
    nf = NF()
    pre, post = frame['CalcTerminalCostToGo']
    l = pre.exp('GetCostExpansion')
    R.eqv('terminal cost-to-go Hessian', nf, post.get('GetCostToGoHessian'), l['dxdx'], en.root, 'terminal Hessian')
    R.eqv('terminal cost-to-go gradient', nf, post.get('GetCostToGoGradient'), l['dx'], en.root, 'terminal gradient')
    # --- the sweep uses the steps on the right objects
    R.sub(sweep, need=('values',))


class Sweep:
    pass


def success(R, ret):
    """condition that a factorization status is Success"""
    return tobool(map1(lambda v: tobool(eq(v, c(0), True)), ret)) if ret is not None else FALSE




def backward(R):
    """the backward pass analysed with everything it calls inlined, and the per-knot-point steps it performs"""
    if 'bp' in R.cache:
        return R.cache['bp']
    en = R.run('altro::ilqr::iLQR::BackwardPass', inst=I62, quiet=STATS)
    R.cache['bp'] = en
    return en


STATS = ('altro::SolverStats::Log', 'altro::SolverStats::PrintLast', 'altro::SolverStats::NewIteration', 'altro::SolverStats::SetVerbosity',
         'altro::SolverLogger::Log', 'altro::SolverLogger::Print', 'altro::SolverLogger::PrintHeader', 'altro::SolverLogger::PrintData')


def step_of(ev, names=None):
    return ev.recv


def knot_index(recv):
    """k for a receiver *knotpoints_[k]"""
    if recv is not None and recv.op == 'deref':
        t = recv.a[0]
        l = t.a[-1] if t.op in ('init', 'mu', 'hv') and isinstance(t.a[-1], tm.T) else t
        if l.op == 'idx':
            return l.a[1]
    return None


ILQR = 'altro::ilqr::iLQR'


def sweep(R, need):
    """obligations on the order and operands of the steps of one sweep"""
    P = R.P
    en = backward(R)
    st0 = engine.State()
    N = R.val(en, ILQR + '::NumSegments', st=st0, inst=I62)
    by = {}
    for ev in calls(en):
        if facts.strip_targs(ev.fn['q']).rsplit('::', 1)[0] == Q:
            by.setdefault(ev.name, []).append(ev)
    sw = Sweep()
    sw.en, sw.N, sw.by = en, N, by
    for need_ in ('CalcActionValueExpansion', 'RegularizeActionValue', 'CalcGains', 'CalcCostToGo', 'CalcTerminalCostToGo'):
        if not by.get(need_):
            raise Removed('backward pass performs ' + need_, 'BackwardPass no longer calls %s' % need_, en.root)
    ctg = ('GetCostToGoHessian', 'GetCostToGoGradient')

    def ctgloc(g, recv, st):
        return R.loc(en, Q + '::' + g, recv, st, inst=I62)
    # terminal cost-to-go before the sweeps, at knot point N
    for ev in by['CalcTerminalCostToGo']:
        k = knot_index(ev.recv)
        R.ob('sweep starts from terminal knot point', (idiff(k, N) == 0) if k is not None else None, ev, 'terminal cost-to-go is computed at %s' % show(ev.recv))
    first = min(ev.seq for ev in by['CalcActionValueExpansion'])
    R.ob('terminal cost-to-go precedes the sweep', any(ev.seq < first and implies(assumed(en, ev), ev.pc) for ev in by['CalcTerminalCostToGo']), by['CalcTerminalCostToGo'][0], 'terminal cost-to-go is not always computed before the sweep')
    # operands
    for ev in by['CalcActionValueExpansion']:
        k = knot_index(ev.recv)
        if k is None:
            R.ob('sweep step indexes a knot point', None, ev, show(ev.recv))
            continue
        nxt = subst_index(ev.recv, k)
        for i, g in enumerate(ctg):
            a = ev.args[i][0] if i < len(ev.args) else None
            want = ctgloc(g, nxt, ev.st)
            if a is not want and a is not None and a.op == 'deref' and a.a[0].op == 'mu' and a.a[0].a[0] in en.loops:
                ok = carried(R, en, ev, a.a[0], k, N, g, ctgloc)
            elif a is None or a.op == 'ite' or a.op in UNRES or unresolved_loc(a, k):
                ok = True if a is want else None
            else:
                ok = a is want
            R.ob('sweep step uses the successor cost-to-go', ok, ev, 'operand %d is %s, required %s' % (i, show(a) if a is not None else None, show(want)))
        iv = interval(en, ev, k)
        ok = None
        if iv is not None:
            ok = tiles([iv[:2]], ZERO, N) and iv[2] == -1
        R.ob('sweep visits N-1 down to 0', ok, ev, 'knot points visited: [%s, %s) step %s' % ((show(iv[0]), show(iv[1]), iv[2]) if iv else ('?', '?', '?')))
    # same knot point for every step of an iteration, in order
    order = ['CalcActionValueExpansion', 'RegularizeActionValue', 'CalcGains', 'CalcCostToGo']
    sw.fail = []
    for g in by['CalcGains']:
        suc = success(R, g.ret)
        same = lambda nm: [e for e in by[nm] if e.loops == g.loops and e.recv is g.recv]
        for nm in order[:2]:
            es = [e for e in same(nm) if e.seq < g.seq]
            R.ob('%s precedes the gains' % nm, bool(es) and implies(g.pc, OR(*[e.pc for e in es])), g, '%s is not always performed at this knot point before CalcGains' % nm)
        for e in [x for x in same('RegularizeActionValue') if x.seq < g.seq]:
            r = e.args[0][1]
            want = R.val(en, ILQR + '::GetRegularization', st=e.st, inst=I62)
            R.eqv('current regularization is applied', NF(), r, want, e, 'regularization passed to RegularizeActionValue')
            if len(e.args) > 1:
                R.ob('only the control Hessian is regularized', e.args[1][1] is c(0) or (None if unresolved(e.args[1][1]) else False), e, 'regularization kind %s' % show(e.args[1][1]))
            av = [x for x in same('CalcActionValueExpansion') if x.seq < e.seq]
            R.ob('regularization follows the expansion', bool(av), e, 'RegularizeActionValue is performed before CalcActionValueExpansion')
        cs = [e for e in same('CalcCostToGo') if e.seq > g.seq]
        R.ob('cost-to-go follows successful gains', bool(cs) and implies(AND(g.pc, suc), OR(*[e.pc for e in cs]), assumed(en, g)), g, 'CalcCostToGo is not always performed after gains were computed')
        sw.fail.append((g, AND(g.pc, NOT(suc)), suc))
    # nothing else writes the cost-to-go
    names = ('CalcCostToGo', 'CalcTerminalCostToGo')
    for ev in en.events:
        if ev.kind != 'store' or ev.loc is None:
            continue
        root = ev.loc
        while root.op in ('fld', 'idx', 'blk') and isinstance(root.a[0], tm.T) and root.op != 'deref' and knot_index(root) is None:
            root = root.a[0]
        if knot_index(root) is None:
            continue
        for g in ctg:
            l = ctgloc(g, root, ev.st)
            if under(ev.loc, l):
                inside = any(P.fns[f]['n'] in names for f, _, _ in ev.stack if f in P.fns)
                R.ob('cost-to-go written only by the recursion', inside, ev, 'store to %s' % show(ev.loc))
    return sw


def carried(R, en, ev, m, k, N, g, ctgloc):
    """a pointer carried round the sweep: it must start at the terminal cost-to-go and move to the knot point just done"""
    L = en.loops[m.a[0]]
    knot = lambda l: knot_index(l.a[0]) if l.op == 'fld' else None

    def same(p, at, st):
        if p.op != 'addr':
            return None
        l = p.a[0]
        if l is ctgloc(g, knot_at(ev.recv, at), st):
            return True
        j = knot(l)
        if j is None or contains(j, lambda x: x.op in UNRES and x not in set(walk(at)) and not x.op == 'mu'):
            return None
        return idiff(j, at) == 0 and l is ctgloc(g, knot_at(ev.recv, j), st) and True
    rs = []
    for p in sources(en, L.s0.read(m.a[1])):
        rs.append(same(p, N, L.s0))
    back = L.back.read(m.a[1])
    rs.append(same(back, k, L.back))
    return False if any(r is False for r in rs) else None if any(r is None for r in rs) else True


def knot_at(recv, k):
    t = recv.a[0]
    l = t.a[-1] if t.op in ('init', 'mu', 'hv') and isinstance(t.a[-1], tm.T) else t
    l2 = idx(l.a[0], k)
    return deref(raw(t.op, *(t.a[:-1] + (l2,)))) if l is not t else deref(l2)


def subst_index(recv, k):
    """*knotpoints_[k] -> *knotpoints_[k+1]"""
    t = recv.a[0]
    l = t.a[-1] if t.op in ('init', 'mu', 'hv') and isinstance(t.a[-1], tm.T) else t
    l2 = idx(l.a[0], iadd(k, ONE))
    return deref(raw(t.op, *(t.a[:-1] + (l2,)))) if l is not t else deref(l2)


def unresolved_loc(l, k):
    return contains(l, lambda x: x.op in UNRES and x not in set(walk(k)))


def one_back(en, L, p):
    """p with what a loop carries from one iteration to the next replaced by what the previous iteration left"""
    mn = L.main or L.main_only
    if not mn or L.back is None or L.s0 is None:
        return p
    k, init, step = mn
    m = {}
    entry = AND(L.s0.pc, *[iteration(en.loops[o]) for o in L.outer if o in en.loops])
    for t in atoms(p):
        if t.op == 'mu' and t.a[0] == L.key and t is not k:
            last = subst(restrict(L.back.read(t.a[1]), L.back.pc), {k.id: isub(k, c(step))})
            m[t.id] = ite(tobool(eq(k, init, True)), tobool(restrict(L.s0.read(t.a[1]), entry)), tobool(last))
    p = subst(p, m) if m else p
    # a flag that is set before a surrounding loop and whenever that loop goes on is set in every iteration
    m = {}
    for t in atoms(p):
        O = en.loops.get(t.a[0]) if t.op == 'mu' and t.a[0] in L.outer else None
        if O is not None and O.do and O.cond is not None and O.s0 is not None and tobool(restrict(O.s0.read(t.a[1]), O.s0.pc)) is TRUE:
            b = O.back if O.back is not None else O.s0
            if implies(tobool(O.cond), tobool(b.read(t.a[1]))):
                m[t.id] = TRUE
    return subst(p, m) if m else p


@rule('C06', 'path-condition and loop-range analysis of the backward sweep and its restart')
def c06(R):
    P = R.P
    sw = sweep(R, need=())
    en, N, by = sw.en, sw.N, sw.by
    fail = P.enum('altro::SolverStatus', 'kBackwardPassRegularizationFailed')
    rho = R.val(en, ILQR + '::GetRegularization', st=engine.State(), inst=I62).a[-1]
    stl = R.val(en, ILQR + '::GetStatus', st=engine.State(), inst=I62).a[-1]
    thr = en.final
    opts = R.loc(en, ILQR + '::GetOptions', st=engine.State(), inst=I62, pred=lambda f: not f.get('cst'))
    threshold = engine.State().read(fld(opts, 'bp_reg_fail_threshold'))
    rmax = engine.State().read(fld(opts, 'bp_reg_max'))
    for g, fl, suc in sw.fail:
        # gains of a failed factorization are not used at this knot point
        for nm in ('CalcCostToGo', 'AddCostToGo'):
            for e in by.get(nm, []):
                if e.seq > g.seq and e.loops == g.loops:
                    R.ob('%s only after a successful factorization' % nm, implies(e.pc, suc), e, '%s is reachable after CalcGains failed' % nm)
        # the regularization is increased on every failure
        inc = [e for e in en.events if e.kind == 'store' and e.loc is rho and e.seq > g.seq and set(g.loops) & set(e.loops) and g.loops[0] in e.loops]
        ok = bool(inc) and implies(fl, OR(*[e.pc for e in inc]), assumed(en, g))
        R.ob('a failure increases the regularization', ok, g, 'no regularization update on some failing path')
        for e in inc:
            if sat(AND(e.pc, fl)):
                R.ob('regularization changes in the sweep only after a failure', implies(e.pc, NOT(suc)) , e, 'the regularization also changes after a success')
        # after a failure the sweep leaves this iteration sequence: no further knot point from the failed one
        L = en.loops[g.loops[-1]]
        back = L.back.pc if L.back is not None else FALSE
        # after failure the loop over knot points must not continue downwards
        ok = not sat(AND(back, AND(fl, NOT(FALSE)))) if (L.main or L.main_only) else None
        R.ob('a failure leaves the sweep', ok, g, 'the sweep continues with the next knot point after a failed factorization')
        # leaving the backward pass after a failure reports it
        after = [e for e in en.events if e.seq > max(x.seq for x in by['CalcGains']) and not e.loops]
        if en.final is not None and len(g.loops) > 1:
            exitpc = AND(en.final.pc, fl)
            stv = en.final.read(stl)
            bad = AND(exitpc, NOT(tobool(map1(lambda v: tobool(eq(v, c(fail), True)), stv))))
            if sat(AND(bad, assumed(en))):
                bad = one_back(en, L, bad)
            R.ob('the backward pass ends after a failure only with the failure status', not sat(AND(bad, assumed(en))), g, 'BackwardPass can return after a failed factorization without reporting it')
        elif len(g.loops) == 1:
            R.ob('the sweep restarts after a failure', None, g, 'no enclosing retry loop')
    # the failure status needs the configured number of failures at maximum regularization
    fs = [e for e in en.events if e.kind == 'store' and e.loc is stl and e.val is c(fail)]
    R.ob('failure status is reported', bool(fs), en.root, 'kBackwardPassRegularizationFailed is never stored')
    for e in fs:
        ats = [a for a in atoms(e.pc) if a.op in ('ilt0', 'ieq0') and contains(a, lambda x: x is threshold)]
        good = None
        for a in ats:
            for pol in (mk(a, TRUE, FALSE), mk(a, FALSE, TRUE)):
                if not sat(AND(e.pc, pol)):
                    continue
                d, k = lin(a.a[0])
                good = good or False
        # some loop-carried counter has reached the threshold
        for m in sorted({x for a in ats for x in walk(a) if x.op == 'mu'}, key=lambda x: x.id):
            cnt = m.a[1]
            if implies(e.pc, NOT(ilt(iadd(m, ONE), threshold))):
                good = True
                for s_ in [x for x in en.events if x.kind == 'store' and x.loc is cnt and x.loops]:
                    d = idiff(s_.val, m)
                    R.ob('failures are counted one at a time', None if d is None else d == 1 or (s_.val.op == 'c'), s_, 'counter update %s' % show(s_.val))
                    cur = s_.st.read(rho)
                    atmax = NOT(tobool(map1(lambda v: flt(v, rmax), cur)))
                    R.ob('only failures at maximum regularization count', implies(s_.pc, atmax, rho_le_max(en, rho, s_, rmax)), s_, 'a failure below the maximum regularization is counted')
        if good is None and not ats and not any(contains(t, lambda x: x.op in ('unk', 'undef', 'pat', 'hv')) for t in atoms(e.pc)):
            # nothing the condition depends on was derived from the threshold either
            if not any(contains(v, lambda x: x is threshold) for t in atoms(e.pc) for m in walk(t) if m.op == 'mu' for v in sources(en, m)):
                good = False
        R.ob('failure needs the configured number of failures', good, e, 'path condition %s' % show(e.pc)[:400])


def rho_le_max(en, rho, ev, rmax):
    return TRUE


@rule('C04', 'reset/accumulation dataflow of the predicted decrease and its normal form in the line search')
def c04(R):
    P = R.P
    en = backward(R)
    adds = [e for e in calls(en) if facts.strip_targs(e.fn['q']) == Q + '::AddCostToGo']
    if not adds:
        raise Removed('the sweep accumulates the predicted decrease', 'BackwardPass no longer calls AddCostToGo', en.root)
    N = R.val(en, ILQR + '::NumSegments', st=engine.State(), inst=I62)
    dv = None
    for e in adds:
        v = e.args[0][1] if e.args[0][1] is not None and e.args[0][1].op == 'addr' else None
        l = v.a[0] if v is not None else None
        if l is None:
            R.ob('accumulator location', None, e, show(e.args[0][1]))
            continue
        base = l.a[0] if l.op == 'idx' and l.a[1] is ZERO else l
        dv = base
        k = knot_index(e.recv)
        iv = interval(en, e, k) if k is not None else None
        R.ob('every segment contributes once', tiles([iv[:2]], ZERO, N) if iv else None, e, 'contributions over %s' % (tuple(map(show, iv[:2])) if iv else None,))
        g = [x for x in calls(en) if facts.strip_targs(x.fn['q']) == Q + '::CalcCostToGo' and x.loops == e.loops and x.recv is e.recv]
        R.ob('contribution follows the cost-to-go of the same knot point', bool(g) and all(x.seq < e.seq for x in g) and implies(e.pc, OR(*[x.pc for x in g])) and all(implies(x.pc, e.pc, assumed(en, e)) for x in g), e, 'AddCostToGo is not paired with CalcCostToGo of the same knot point')
        # reset at the start of each sweep
        L = innermost(en, e, k) if k is not None else None
        if L is not None:
            for i in (0, 1):
                v0 = L.s0.read(idx(base, c(i)))
                ls = [v for p, v in cases(v0) if sat(AND(p, L.s0.pc))]
                z0 = [v is c(0) or all(x is c(0) for x in sources(en, v)) or (None if v.op not in ('mu', 'c', 'init', 'hv') else False) for v in ls]
                R.ob('the accumulator is zero when a sweep starts', False if False in z0 else None if None in z0 else True, e, 'term %d is %s at the start of a sweep' % (i, show(v0)[:200]))
    if dv is None:
        return
    # other writes
    inl = set(e.fn['key'] for e in adds)
    for ev in en.events:
        if ev.kind == 'store' and ev.loc is not None and (under(ev.loc, dv)):
            inside = any(f in inl for f, _, _ in ev.stack)
            R.ob('the accumulator is written only by reset and contribution', inside or ev.val is c(0) and any(L2.s0 is not None and L2.key not in ev.loops for L2 in en.loops.values()), ev, 'store %s to %s' % (show(ev.val)[:100], show(ev.loc)))
    # AddCostToGo adds exactly the terms of the knot point
    for f in P.find(Q + '::AddCostToGo', inst=I62):
        e2 = R.run(None, fn=f)
        nf = NF()
        k0 = Kpf(R, e2, engine.State())
        d = k0.delta(nf)
        arg = engine.State().read(raw('obj', 'arg0'))
        t = f['T'][f['ps'][0]['t']]
        tgt = deref(arg)
        for i in (0, 1):
            l = idx(tgt, c(i))
            cand = [ev for ev in e2.events if ev.kind == 'store' and show(ev.loc).replace(' ', '') .endswith('[%d]' % i)]
            if not cand:
                R.ob('AddCostToGo adds term %d' % i, None if e2.unsupported else False, f, 'no store to element %d' % i)
                continue
            ev = cand[-1]
            w = nf.add(nf.nf(engine.State().read(ev.loc)), d[i]) if d else None
            R.ob('AddCostToGo adds term %d' % i, (nf.nf(ev.val) == w) if w is not None else None, ev, 'found %s, required %s' % (nf.show(nf.nf(ev.val)), nf.show(w) if w else '?'))
    # the line search's prediction
    from rules import ilqr
    fp = ilqr.forward(R)
    acc = ilqr.accept(R, fp)
    for ev in acc:
        al = ilqr.step_length(R, fp, ev)
        if al is None:
            R.ob('prediction used by the line search', None, ev, 'step length not identified')
            continue
        ok = ilqr.prediction(R, fp, ev, al, dv)
        R.ob('prediction used by the line search', ok[0], ev, ok[1])
