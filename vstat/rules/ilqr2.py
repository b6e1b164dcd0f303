"""Expansions, status, loop bounds, bookkeeping and setup of the iLQR solver (C08 - C13)."""
from rulelib import *
from rules.kpf import *
from rules.ilqr import *


@rule('C08', 'operand, buffer-content and range analysis of every expansion callback; ordering within the solve loop')
def c08(R):
    P = R.P
    en = R.run(ILQR + '::UpdateExpansionsBlock', inst=I62, quiet=STATS)
    z = ztraj(R, en)
    lo, hi = engine.State().read(raw('obj', 'arg0')), engine.State().read(raw('obj', 'arg1'))
    R.sub(block, en, z, lo, hi)
    # every iteration of a solve recomputes them before the sweep
    en = solve(R)
    N = R.val(en, ILQR + '::NumSegments', st=engine.State(), inst=I62)
    sweeps = [e for e in calls(en, 'CalcActionValueExpansion')]
    if not sweeps:
        raise Removed('a solve performs the backward sweep', 'no backward sweep in Solve', en.root)
    it = sweeps[0].loops[0] if sweeps[0].loops else None
    ups = [e for e in calls(en) if facts.strip_targs(e.fn['q']) == ILQR + '::UpdateExpansions' and it in e.loops and e.seq < sweeps[0].seq]
    serial = [e for e in calls(en, 'UpdateExpansionsBlock') if it in e.loops and e.seq < sweeps[0].seq]
    L = en.loops.get(it)
    if L is None:
        R.ob('expansions are refreshed in every iteration', None, en.root, 'iteration loop not found')
    else:
        par = [e for e in calls(en, 'AddTask') if it in e.loops and e.seq < sweeps[0].seq]
        cover = OR(*[e.pc for e in serial + ups]) if serial + ups else FALSE
        h = AND(L.head.pc, tobool(L.cond) if L.cond is not None and not L.do else TRUE)
        R.ob('expansions are refreshed in every iteration before the sweep', implies(h, cover, assumed(en, sweeps[0])), ups[0] if ups else sweeps[0], 'the expansion update is skipped on some path of an iteration')
        for e in serial:
            a = [x[1] for x in e.args]
            R.ob('serial update covers every knot point', a[0] is ZERO and idiff(a[1], iadd(N, ONE)) == 0, e, 'range [%s, %s)' % tuple(map(show, a[:2])))
        # the trajectory is not changed between refresh and sweep
        u0 = max([e.seq for e in serial + ups], default=0)
        for e in en.events:
            if e.kind == 'store' and u0 < e.seq < sweeps[0].seq and it in e.loops and inside(e.loc, z):
                R.ob('the trajectory stays fixed between refresh and sweep', False, e, 'store to %s' % show(e.loc))
    # SetZero really zeroes every buffer
    for rec, getters, qz in ((CE, ('dxdx', 'dxdu', 'dudu', 'dx', 'du'), CE + '::SetZero'), (DE, ('GetJacobian',), DE + '::SetZero')):
        fs = P.find(qz, inst=I62)
        if not fs:
            continue
        e2 = R.run(None, fn=fs[0])
        for g in getters:
            l = R.loc(e2, rec + '::' + g, st=engine.State(), inst=I62)
            v = e2.final.read(l)
            R.ob('SetZero clears %s' % g, iszero(v), fs[0], 'value after SetZero: %s' % show(v)[:200])


def iszero(v, pc=TRUE):
    if v.op == 'ite':
        rs = [iszero(x) for p, x in cases(v) if sat(AND(p, pc))]
        # cleared on some paths only
        return True if rs and all(r is True for r in rs) else False if True in rs or False in rs else None
    if cv(v) == 0 or (v.op == 'app' and v.a[0] == 'Zero'):
        return True
    return None if unresolved(v) else False


def block(R, en, z, lo, hi):
    """obligations on one block of expansion work over [lo, hi)"""
    P = R.P
    virt = [e for e in calls(en) if e.extra == 'virtual']
    grad = [e for e in virt if e.name == 'Gradient']
    hess = [e for e in virt if e.name == 'Hessian']
    jac = [e for e in virt if e.name == 'Jacobian']
    for nm, es in (('cost gradient', grad), ('cost Hessian', hess), ('dynamics Jacobian', jac)):
        if not es:
            raise Removed('the %s is computed' % nm, 'the expansion update no longer evaluates the %s' % nm, en.root)
    for nm, es in (('cost gradient', grad), ('cost Hessian', hess), ('dynamics Jacobian', jac)):
        ivs = []
        for e in es:
            k = knot_of_recv(e.recv)
            if k is None:
                R.ob('%s: knot point' % nm, None, e, show(e.recv))
                ivs = None
                continue
            kp = kp_of(R, en, k, e.st)
            fun = kp_model(R, en, kp, e.st) if nm.startswith('dyn') else kp_cost(R, en, kp, e.st)
            R.ob('%s uses the function of its knot point' % nm, e.recv is fun, e, 'receiver %s, required %s' % (show(e.recv), show(fun)))
            for i, g in enumerate(('State', 'Control')):
                l, v = tget(R, en, g, z, k, e.st)
                got = e.args[i][0]
                R.ob('%s evaluated at its own %s' % (nm, g.lower()), got is l if got is not None else (e.args[i][1] is v or None), e, 'evaluated at %s, required %s' % (show(got if got is not None else e.args[i][1])[:200], show(l)))
            if nm.startswith('dyn'):
                for i, g in ((2, 'GetTime'), (3, 'GetStep')):
                    _, v = tget(R, en, g, z, k, e.st)
                    R.ob('%s evaluated with its own %s' % (nm, g[3:].lower()), e.args[i][1] is v, e, 'argument %s, required %s' % (show(e.args[i][1])[:150], show(v)))
                base = R.loc(en, Q + '::GetDynamicsExpansion', kp, e.st, inst=I62)
                outs = [(4, R.loc(en, DE + '::GetJacobian', base, e.st, inst=I62), 'jacobian')]
            else:
                base = R.loc(en, Q + '::GetCostExpansion', kp, e.st, inst=I62)
                gs = ('dx', 'du') if nm == 'cost gradient' else ('dxdx', 'dxdu', 'dudu')
                outs = [(2 + i, R.loc(en, CE + '::' + g, base, e.st, inst=I62), g) for i, g in enumerate(gs)]
            for i, want, g in outs:
                l, v = e.args[i]
                R.ob('%s fills the knot point\'s %s' % (nm, g), l is want, e, 'output %s, required %s' % (show(l) if l is not None else None, show(want)))
                R.ob('%s buffer %s is zero before the callback' % (nm, g), iszero(e.st.read(want), e.pc), e, 'content before the callback: %s' % show(e.st.read(want))[:200])
            iv = interval(en, e, k)
            ivs = None if iv is None or ivs is None else ivs + [iv[:2]]
            given = TRUE
            if nm.startswith('dyn'):
                mp = R.val(en, Q + '::GetModelPtr', this=kp, st=e.st, inst=I62)
                given = NOT(tobool(eq(mp, NULL)))
                if not always(en, e, given):
                    given = tobool(mp) if mp.op != 'ite' else given
            R.ob('%s is computed unconditionally' % nm, always(en, e, given), e, 'skipped on some path: %s' % show(e.pc)[:300])
            # nothing overwrites it afterwards in the block
            for s_ in en.events:
                if s_.kind == 'store' and s_.seq > e.seq and s_.loops == e.loops:
                    for i, want, g in outs:
                        if under(s_.loc, want) and not contains(s_.val, lambda x: x.op == 'out'):
                            R.ob('%s result is kept' % nm, False, s_, 'the %s is overwritten with %s' % (g, show(s_.val)[:100]))
        R.ob('%s covers the block' % nm, tiles(ivs, lo, hi) if ivs is not None else None, es[0], 'range %s' % ([tuple(map(show, i)) for i in ivs] if ivs else '?'))
    costs, before = sums(R, en, None)
    sts = [e for e in en.events if e.kind == 'store' and under(e.loc, costs)]
    R.ob('the cost is stored with the expansion', bool(sts), en.root, 'knot point costs are not stored')
    if sts:
        R.sub(check_costs_range, en, sts, z, lo, hi, 'knot point cost')


def check_costs_range(R, en, sts, z, lo, hi, what):
    R.sub(check_costs, en, sts, z, isub(hi, ONE), what, sts[0]) if lo is ZERO else check_costs_lo(R, en, sts, z, lo, hi, what)


def check_costs_lo(R, en, sts, z, lo, hi, what):
    """check_costs over [lo, hi)"""
    n0 = len(R.obs)
    R.sub(check_costs, en, sts, z, isub(hi, ONE), what, sts[0])
    # the range obligation was stated for [0, hi): restate it for [lo, hi)
    for o in R.obs[n0:]:
        if o['rule'].endswith('covers every knot point'):
            ivs = []
            for e in sts:
                iv = interval(en, e, e.loc.a[1]) if e.loc.op == 'idx' else None
                if iv is None:
                    ivs = None
                    break
                ivs.append(iv[:2])
            r = tiles(ivs, lo, hi) if ivs is not None else None
            o['status'] = {True: 'ok', False: 'violated', None: 'undecided'}[r]


def knot_of_recv(recv):
    """k of the function object owned by knotpoints_[k]"""
    t = recv
    while t is not None:
        k = knot_index(t) if t.op == 'deref' else None
        if k is not None:
            return k
        if t.op == 'deref':
            p = t.a[0]
            if p.op in ('init', 'mu', 'hv') and isinstance(p.a[-1], tm.T):
                t = p.a[-1]
                continue
            return None
        if t.op in ('fld', 'idx', 'blk') and isinstance(t.a[0], tm.T):
            t = t.a[0]
            continue
        return None
    return None


@rule('C09', 'decision-tree analysis of the status value and its path conditions')
def c09(R):
    P = R.P
    S = {k: P.enum('altro::SolverStatus', k) for k in ('kSolved', 'kUnsolved', 'kStateLimit', 'kControlLimit', 'kCostIncrease', 'kMaxIterations', 'kMaxInnerIterations', 'kBackwardPassRegularizationFailed')}
    en = R.run(ILQR + '::IsDone', inst=I62, quiet=STATS)
    stl = ilqr_loc(R, en, 'GetStatus')
    stats = R.loc(en, ILQR + '::GetStats', st=engine.State(), inst=I62, pred=lambda f: not f.get('cst'))
    st0 = engine.State()

    def last(name):
        v = fld(stats, name)
        return [t for a in walk_all(en) for t in [a] if False]
    it_in, it_tot = st0.read(fld(stats, 'iterations_inner')), st0.read(fld(stats, 'iterations_total'))
    mi, mt = opt(R, en, 'max_iterations_inner'), opt(R, en, 'max_iterations_total')
    fin = en.final.read(stl)
    base = en.final.pc
    old = st0.read(stl)

    def back_lt(field, tol):
        """atoms  (last element of stats.field) < tol"""
        out = []
        tolv = opt(R, en, tol)
        for t in atoms(fin) | atoms(base) | (atoms(tobool(en.ret)) if en.ret is not None else set()):
            if t.op in ('flt',) and t.a[1] is tolv and is_last(t.a[0], fld(stats, field)):
                out.append(mk(t, TRUE, FALSE))
            if t.op in ('fle',) and t.a[0] is tolv and is_last(t.a[1], fld(stats, field)):
                out.append(mk(t, FALSE, TRUE))
        return OR(*out) if out else None
    dj, gr = back_lt('cost_decrease', 'cost_tolerance'), back_lt('gradient', 'gradient_tolerance')
    R.ob('the last cost decrease is tested against its tolerance', dj is not None, en.root, 'IsDone has no test of the last recorded cost decrease against cost_tolerance')
    R.ob('the last gradient is tested against its tolerance', gr is not None, en.root, 'IsDone has no test of the last recorded gradient against gradient_tolerance')
    conv = AND(dj or FALSE, gr or FALSE)
    inner = NOT(ilt(it_in, mi))
    total = NOT(ilt(it_tot, mt))
    for p, v in cases(fin):
        pp = AND(base, p)
        if not sat(pp):
            continue
        k = cv(v)
        if k == S['kSolved']:
            R.ob('solved only when both tolerances are met', implies(pp, conv), en.root, 'status becomes solved under %s' % show(p)[:300])
            for vec in ('cost_decrease', 'gradient'):
                nan = when_nan(pp, lambda t: is_last(t, fld(stats, vec)))
                R.ob('solved only when both tolerances are met', not sat(nan), en.root, 'status becomes solved when the recorded %s is not a number' % vec)
        elif k == S['kMaxInnerIterations']:
            R.ob('inner limit only when reached', implies(pp, inner), en.root, 'under %s' % show(p)[:300])
        elif k == S['kMaxIterations']:
            R.ob('total limit only when reached', implies(pp, total), en.root, 'under %s' % show(p)[:300])
        elif v is old:
            R.ob('convergence is reported', not sat(AND(pp, conv)), en.root, 'both tolerances are met but the status is not solved')
            R.ob('iteration limits are reported', not sat(AND(pp, OR(inner, total))), en.root, 'a reached iteration limit is not reported')
        else:
            R.ob('IsDone reports only convergence or limits', None if unresolved(v) else False, en.root, 'status %s' % show(v)[:200])
    if en.ret is not None:
        done = tobool(en.ret)
        unres = tobool(map1(lambda v: tobool(eq(v, c(S['kUnsolved']), True)), fin))
        R.ob('done exactly when a final status is set', implies(AND(base, done), NOT(unres)) and implies(AND(base, NOT(done)), unres), en.root, 'IsDone returns %s' % show(done)[:300])
    # recorded quantities
    en = R.run(ILQR + '::UpdateConvergenceStatistics', inst=I62, quiet=STATS)
    logs = logged(en)
    dg = [e for n, v, e in logs if n == 'grad']
    R.ob('the gradient is recorded', bool(dg) and all(not e.loops for e in dg), en.root, 'no Log("grad")')
    djs = [(v, e) for n, v, e in logs if n == 'dJ']
    R.ob('the cost decrease is recorded', bool(djs), en.root, 'no Log("dJ")')
    for v, e in djs:
        R.sub(check_dj, en, v, e, stats)
    for n, v, e in logs:
        if n == 'grad':
            R.sub(check_grad, en, v, e)
    # the solve loop
    en = solve(R)
    conv_calls = [e for e in calls(en) if facts.strip_targs(e.fn['q']) == ILQR + '::IsDone']
    upd = [e for e in calls(en) if facts.strip_targs(e.fn['q']) == ILQR + '::UpdateConvergenceStatistics']
    R.ob('convergence is checked after the statistics of the same iteration', bool(conv_calls) and bool(upd) and all(u.loops == c_.loops and u.seq < c_.seq for u, c_ in zip(upd, conv_calls)), conv_calls[0] if conv_calls else en.root, 'IsDone does not follow UpdateConvergenceStatistics')
    fail = S['kBackwardPassRegularizationFailed']
    for e in en.events:
        if e.kind != 'store' or e.loc is not stl or not e.loops:
            continue
        cur = before(e, stl)
        isf = tobool(map1(lambda v: tobool(eq(v, c(fail), True)) if v.op == 'c' else FALSE, cur))
        R.ob('a failed backward pass is not overwritten', not sat(AND(e.pc, isf)) or e.val is c(fail), e, 'the status %s is stored although the backward pass of this iteration failed' % show(e.val))
        for nm in ('kStateLimit', 'kControlLimit'):
            pass
    # a status other than unsolved ends the loop
    Ls = [L for k, L in en.loops.items() if conv_calls and k in conv_calls[0].loops]
    if Ls and Ls[-1].back is not None and conv_calls:
        L = en.loops[conv_calls[0].loops[-1]]
        sv = L.back.read(stl)
        uns = tobool(map1(lambda v: tobool(eq(v, c(S['kUnsolved']), True)), sv))
        R.ob('the loop goes on only while unsolved', implies(L.back.pc, uns, assumed(en)), en.root, 'another iteration starts with status %s' % show(restrict(sv, L.back.pc))[:200])
    # cost increase
    en = forward(R)
    costs, before_ = sums(R, en, None)
    for e in en.events:
        if e.kind == 'store' and e.loc is stl and e.val is c(S['kCostIncrease']):
            ok = not sat(e.pc) or any(t.op == 'flt' and t.a[0] is before_ and implies(e.pc, mk(t, TRUE, FALSE)) for t in atoms(e.pc))
            R.ob('cost increase only when the cost increased', ok, e, 'path condition %s' % show(e.pc)[:300])
            # it is the recorded cost that increased, not that of a candidate that was turned down
            pcs = FALSE
            for nm, v, x in logged(en):
                if nm == 'cost' and x.seq < e.seq:
                    for p, y in cases(v):
                        q = AND(e.pc, AND(x.pc, p)) if not x.loops else FALSE
                        if sat(q):
                            r = y is before_ or not implies(q, flt(before_, y))
                            R.ob('cost increase only when the recorded cost increased', not r or (None if y is not before_ and unresolved(y) else False), e, 'recorded %s' % show(y)[:200])


def before(e, l):
    return e.st.read(l)


def walk_all(en):
    return ()


def is_last(t, vec):
    """t is the last element of the vector at vec"""
    if t.op in ('init', 'mu', 'hv', 'sel', 'app', 'ret') or True:
        loc = t.a[-1] if t.op in ('init', 'mu', 'hv') and isinstance(t.a[-1], tm.T) else None
        if loc is not None and loc.op == 'idx' and loc.a[0] is vec:
            i = loc.a[1]
            return contains(i, lambda x: (x.op == 'app' and 'size' in str(x.a[0])) or x.op in ('init', 'mu', 'size'))
        if t.op == 'app' and t.a[0] in ('V.back', 'back') and len(t.a) > 1:
            return contains(t, lambda x: x is vec or (x.op in ('init', 'mu') and x.a[-1] is vec))
    return contains(t, lambda x: x is vec)


def member_of(v):
    """the member a registered pointer refers to"""
    if v.op == 'addr' and v.a[0].op == 'glob':
        return v.a[0].a[0].rsplit('::', 1)[-1]
    if v.op == 'addr' and v.a[0].op == 'fld' and v.a[0].a[0] is THIS:
        return v.a[0].a[1]
    return None


def registered(P):
    """(columns {title: event}, series {title: (member, event)}) set up by the constructor of the statistics"""
    if hasattr(P, 'registered'):
        return P.registered
    r = P.rec('altro::SolverStats')
    ct = [f for k, f in sorted(P.fns.items()) if f.get('cls') == r['key'] and f.get('ctor') and not (f.get('cc') or f.get('mc')) and not f['ps']]
    if not ct:
        raise Removed('the statistics register their series', 'no default constructor')
    en = Engine(P, opaque=('altro::SolverLogger::AddEntry',))
    en.run(ct[0])
    maps = [fld(THIS, x['n']) for x in r['fs'] if 'map<' in r['T'][x['t']]['s'] and 'vector<double>' in r['T'][x['t']]['s'].replace(', std::allocator<double>', '')]
    if len(maps) != 1:
        raise Removed('every series has a name', '%d maps from names to series' % len(maps))
    mp = maps[0]
    cols, series, odd = [], [], []
    byid = {}
    for ev in en.events:
        if ev.kind == 'call' and ev.name == 'AddEntry':
            t = next((a[1].a[0] for a in ev.args if a[1] is not None and a[1].op == 's'), None)
            byid[ev.id] = t
            cols.append((t, ev))
    for ev in en.events:
        l, v = None, None
        if ev.kind == 'store' and ev.loc.op == 'idx' and ev.loc.a[0] is mp:
            l, v = ev.loc.a[1], ev.val
        elif ev.kind == 'call' and ev.recv is mp and ev.name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
            if len(ev.args) == 2:
                l, v = ev.args[0][1], ev.args[1][1]
            else:
                odd.append(ev)
                continue
        else:
            continue
        if l.op == 's':
            t = l.a[0]
        else:
            ids = {x.a[0] for x in walk(l) if x.op == 'ret' and x.a[0] in byid}
            t = byid[ids.pop()] if len(ids) == 1 and 'title' in show(l) else None
        series.append((t, member_of(v), ev))
    P.registered = en, mp, cols, series, odd
    return P.registered



# the series each value belongs to, by the name the solver logs it under
MEANING = {'cost_decrease': 'dJ', 'gradient': 'grad', 'cost': 'cost', 'violations': 'viol', 'max_penalty': 'pen', 'regularization': 'reg', 'alpha': 'alpha',
           'improvement_ratio': 'z'}


def titles(P):
    """the meaning of each registered name: the series its values are stored in"""
    try:
        _, _, _, series, _ = registered(P)
    except (Removed, facts.ToolError):
        return {}
    return {t: MEANING.get(m, '?' + m) for t, m, _ in series if t is not None and m is not None}


def logged(en):
    """(meaning, value, event) of every statistics log call; the meaning is the series the logged name is registered for"""
    out = []
    names = titles(en.P)
    for e in calls(en, 'Log'):
        if facts.strip_targs(e.fn['q']) == 'altro::SolverStats::Log' and len(e.args) == 2:
            t = e.args[0][1]
            n = t.a[0] if t.op == 's' else show(t)
            out.append((names.get(n, n if n not in MEANING.values() or not names else '?' + n), e.args[1][1], e))
    return out


def vec_ref(t, vec, back):
    """t reads the element of the vector at vec that lies `back` places before its end"""
    if t.op not in ('init', 'mu', 'hv') or not isinstance(t.a[-1], tm.T):
        return False
    l = t.a[-1]
    if l.op != 'idx' or l.a[0] is not vec:
        return False
    return l.a[1]


def check_dj(R, en, v, e, stats):
    """dJ = initial cost - last cost in the first iteration, else previous cost - last cost"""
    st0 = engine.State()
    it = st0.read(fld(stats, 'iterations_inner'))
    init = st0.read(fld(stats, 'initial_cost'))
    cost = fld(stats, 'cost')
    first = tobool(eq(it, ZERO, True))
    seen = set()
    for p, x in cases(v):
        pp = AND(e.pc, p)
        if not sat(pp):
            continue
        nf = NF(scalar=lambda t: True)
        reads = [t for t in walk(x) if t.op in ('init', 'mu', 'hv') and isinstance(t.a[-1], tm.T) and under(t.a[-1], cost) and t.a[-1] is not cost]
        idxs = {}
        for t in reads:
            i = vec_ref(t, cost, 0)
            if i is not False:
                idxs[t] = i
        n = [t for i in idxs.values() for t in walk(i) if t.op in ('init', 'mu') and isinstance(t.a[-1], tm.T) and t.a[-1].op == 'fld' and t.a[-1].a[0] is cost]
        if not n:
            R.ob('the recorded decrease is a cost difference', None if unresolved(x) else False, e, 'recorded %s' % show(x)[:200])
            continue
        last = engine.State().read(idx(cost, isub(n[0], ONE)))
        prev = engine.State().read(idx(cost, isub(n[0], c(2))))
        for f, before_, nm in ((first, init, 'first'), (NOT(first), prev, 'later')):
            if sat(AND(pp, f)):
                seen.add(nm)
                R.ob('the recorded decrease (%s iteration) is previous minus current cost' % nm, nf.eq(x, raw('-', before_, last)) or (None if unresolved(x) else False), e,
                     'recorded %s, required %s - %s' % (show(x)[:200], show(before_), show(last)))


def allocated(en, n):
    """n with the sizes of the buffers allocated earlier in the run put in"""
    m = {}
    for x in en.events:
        if x.kind == 'store' and x.loc is not None and x.val is not None and x.val.op == 'app' and x.val.a[0] in ('Zero', 'E.Zero') and len(x.val.a) == 2:
            m[x.loc] = x.val.a[1]

    def f(t):
        if t.op == 'init' and isinstance(t.a[-1], tm.T) and t.a[-1].op == 'fld' and t.a[-1].a[1] in ('#rows', '#size'):
            return m.get(t.a[-1].a[0], t)
        return t
    d, k = tm.lin(n)
    r = c(k)
    for t, q in d.items():
        r = iadd(r, tm.iscale(f(t), q))
    return r


def check_grad(R, en, v, e):
    """mean over the segments of max_i |d_i| / (|u_i| + 1)"""
    z = ztraj(R, en)
    N = R.val(en, ILQR + '::NumSegments', st=engine.State(), inst=I62)
    sts = []
    for t in walk(v):
        if t.op == 'mu' and isinstance(t.a[-1], tm.T):
            sts += [x for x in en.events if x.kind == 'store' and x.loc is not None and under(x.loc, t.a[-1]) and t.a[0] in x.loops and x not in sts]
    if not sts:
        R.ob('the recorded gradient follows from the gains', None if unresolved(v) else False, e, 'recorded %s' % show(v)[:200])
        return
    ivs = []
    for x in sts:
        k = x.loc.a[1] if x.loc.op == 'idx' else None
        if k is None:
            R.ob('gradient entry of a segment', None, x, show(x.loc))
            return
        kp = kp_of(R, en, k, x.st)
        d = R.val(en, Q + '::GetFeedforwardGain', this=kp, st=x.st, inst=I62)
        _, u = tget(R, en, 'Control', z, k, x.st)
        has = contains(x.val, lambda y: y is d)
        R.ob('the gradient entry uses the segment\'s feedforward gain', has or (None if unresolved(x.val) else False), x, 'entry %s' % show(x.val)[:200])
        us = [t for t in walk(x.val) if t is u]
        R.ob('the gradient entry is normalized by the segment\'s control', bool(us) or (None if unresolved(x.val) and any(t.op in ('hv', 'undef', 'unk') or t.op == 'mu' and t is not k for t in walk(x.val)) else False), x, 'entry %s, control %s' % (show(x.val)[:200], show(u)))
        R.ob('the gradient entry is computed for every segment', always(en, x), x, '')
        iv = interval(en, x, k)
        ivs = None if iv is None or ivs is None else ivs + [iv[:2]]
    for t in walk(v):
        if t.op == '/' and t.a[0].op == 'app' and t.a[0].a[0] == 'E.sum':
            n = allocated(solve(R), t.a[1])
            d = idiff(n, N)
            R.ob('the gradient is averaged over the segments', d == 0 if d is not None else None, e, 'sum divided by %s' % show(n)[:120])
    R.ob('the gradient covers segments 0..N-1', tiles(ivs, ZERO, N) if ivs is not None else None, sts[0], 'segments %s' % ([tuple(map(show, i)) for i in ivs] if ivs else '?'))


# ---------------------------------------------------------------- C10
def bounded(R, en, L, limit, name, at):
    """loop L runs at most `limit` times"""
    if L.lo is not None and L.hi is not None:
        d = idiff(isub(L.hi, L.lo), limit)
        if d is not None:
            return R.ob(name, d <= 0, at, 'the loop runs %s times, the limit is %s' % (show(isub(L.hi, L.lo))[:100], show(limit)))
    # a counter that moves on every path round the loop and is below the limit when it goes round
    if L.back is None:
        return R.ob(name, True, at, 'the loop never repeats')
    found = False
    cnt = set()
    for t in atoms(L.back.pc) | (atoms(tobool(L.cond)) if L.cond is not None else set()):
        if contains(t, lambda x: x is limit):
            for m in walk(t):
                if m.op == 'mu' and m.a[0] == L.key and isinstance(m.a[-1], tm.T):
                    cnt.add(m)
    res = None if cnt else False
    why = 'no test against %s decides whether the loop goes round' % show(limit)
    for m in cnt:
        v = L.back.read(m.a[-1])
        ok = True
        for p, x in cases(v):
            if not sat(AND(L.back.pc, p)):
                continue
            d = idiff(x, m)
            if d is None:
                ok = None
            elif d < 1:
                ok = False
                why = 'the counter %s does not advance on some path round the loop' % show(m)
                break
        if ok:
            # below the limit when it goes round (tested at the head or at the back edge)
            h = AND(L.back.pc, tobool(L.cond)) if L.cond is not None and not L.do else L.back.pc
            below = implies(h, ilt(m, limit)) or implies(L.back.pc, ilt(v, limit))
            ok = True if below else None
            why = 'the counter is not tested against %s' % show(limit)
        if ok or res is None:
            res = ok if ok is not None else res
        if ok:
            break
    return R.ob(name, res, at, why)


def lockstep(en, L, loc, x, h):
    """a counter set from the loop's own variable: one apart at the start means one apart throughout"""
    if unresolved_opt(x) or h in walk(x):
        return None
    vs = [(L.head.read(iv), idiff(L.back.read(iv), L.head.read(iv)), L.s0.read(iv)) for iv in L.ivs]
    if L.main is not None:
        vs.append((L.main[0], L.main[2], L.main[1]))
    for t, step, t0 in vs:
        d = idiff(x, t)
        if d is not None:
            d0 = idiff(L.s0.read(loc), t0)
            if step == 1:
                return True if d0 is not None and d0 == d - 1 else False
    return None


def counts_once(R, en, L, loc, name, at):
    if L.back is None:
        return R.ob(name, None, at, 'the loop never repeats')
    h, b = L.head.read(loc), restrict(L.back.read(loc), L.back.pc)
    ok = True
    for p, x in cases(b):
        if sat(AND(L.back.pc, p)):
            d = idiff(x, h)
            if d is None:
                ok = lockstep(en, L, loc, x, h) if ok else ok
            elif d != 1:
                ok = False
    R.ob(name, ok, at, 'after one iteration the counter is %s, before it %s' % (show(b)[:100], show(h)[:60]))


AL = 'altro::augmented_lagrangian::AugmentedLagrangianiLQR'


def al_solve(R):
    """the constrained solve, with the inner solver as one opaque step"""
    if 'al_solve' not in R.cache:
        R.cache['al_solve'] = R.run(AL + '::Solve', inst=I62, quiet=STATS + (ILQR + '::Solve', 'altro::SolverStats::Reset'))
    return R.cache['al_solve']


@rule('C10', 'induction-variable and guard analysis of every solver loop against its configured limit; counter dataflow round the loop')
def c10(R):
    P = R.P
    st0 = engine.State()
    en = solve(R)
    stats = R.loc(en, ILQR + '::GetStats', st=st0, inst=I62, pred=lambda f: not f.get('cst'))
    sw = calls(en, 'CalcActionValueExpansion')
    if not sw or not sw[0].loops:
        raise Removed('a solve iterates the backward sweep', 'no backward sweep in a loop of Solve', en.root)
    L = en.loops[sw[0].loops[0]]
    R.sub(bounded, en, L, opt(R, en, 'max_iterations_inner'), 'a solve performs at most max_iterations_inner iterations', en.root)
    for nm in ('iterations_inner', 'iterations_total'):
        R.sub(counts_once, en, L, fld(stats, nm), '%s advances by one per iteration' % nm, en.root)
        for e in stores(en, lambda l: l is fld(stats, nm)):
            if L.key in e.loops:
                d = idiff(e.val, e.st.read(e.loc))
                ok = d == 1 if d is not None else lockstep(en, L, e.loc, e.val, L.head.read(e.loc))
                R.ob('%s changes only by one at a time' % nm, ok, e, 'stored %s' % show(e.val)[:100])
                R.ob('%s is not counted inside an inner loop' % nm, e.loops == (L.key,) or e.loops[-1] == L.key, e, 'counted once per pass of an inner loop')
    z = ztraj(R, en)
    cl = [d for d in dyn_calls(en) if len(d.loops) >= 2 and d.loops[0] == L.key and d.args[4][0] is not None and root_traj(d.args[4][0]) is not z]
    ls = {d.loops[1] for d in cl if len(d.loops) >= 3}
    if not ls:
        R.ob('a line search performs at most line_search_max_iterations rollouts', None if cl else False, en.root, 'line-search loop not found')
    for k in ls:
        R.sub(bounded, en, en.loops[k], opt(R, en, 'line_search_max_iterations'), 'a line search performs at most line_search_max_iterations rollouts', cl[0])
    # the sweep's retry loop cannot go on forever: each failure raises the regularization or counts
    en = backward(R)
    rho = ilqr_loc(R, en, 'GetRegularization')
    rmax, thr = opt(R, en, 'bp_reg_max'), opt(R, en, 'bp_reg_fail_threshold')
    g = calls(en, 'CalcGains')
    if g and len(g[0].loops) >= 2:
        W = en.loops[g[0].loops[0]]
        if W.back is None:
            R.ob('the backward pass cannot retry forever', True, g[0], '')
        else:
            N = R.val(en, ILQR + '::NumSegments', st=st0, inst=I62)
            cnt = [t for t in atoms(W.back.pc) if contains(t, lambda x: x is thr)]
            # the count must change from sweep to sweep
            cnt_ = [t for t in cnt if contains(t, lambda x: x.op in ('mu', 'hv', 'unk'))]
            R.ob('failures at maximum regularization end the retries', bool(cnt_), g[0], 'no test against bp_reg_fail_threshold decides whether the sweep is retried')
            base = AND(W.back.pc, ilt(ZERO, N), tobool(fle(rmax, rmax)))
            for m in {m for t in cnt for m in walk(t) if m.op == 'mu' and m.a[0] == W.key and isinstance(m.a[-1], tm.T)}:
                v = W.back.read(m.a[-1])
                rv = W.back.read(rho)
                bad = FALSE
                for p, x in cases(v):
                    if idiff(x, m) != 0:
                        continue
                    for q, r in cases(rv):
                        if r is rmax:
                            bad = OR(bad, AND(base, p, q))
                R.ob('every failure at maximum regularization is counted', True if not sat(bad) else None if unresolved_opt(v) else False, g[0], 'a failure with the regularization at its maximum is not counted, so the sweep can be retried forever')
                R.ob('the retries stop at the configured number', implies(base, ilt(v, thr)) or None, g[0], 'retried although the count reached bp_reg_fail_threshold')
    # constrained solver
    en = al_solve(R)
    inner = [e for e in calls(en) if facts.strip_targs(e.fn['q']) == ILQR + '::Solve']
    if not inner:
        raise Removed('the constrained solver runs the inner solver', 'no call of the inner Solve', en.root)
    ks = {e.loops for e in inner}
    for k in ks:
        if not k:
            R.ob('the outer iterations are bounded', True, inner[0], '')
            continue
        L = en.loops[k[0]]
        R.sub(bounded, en, L, al_opt(R, en, 'max_iterations_outer'), 'the constrained solver performs at most max_iterations_outer outer iterations', inner[0])
        R.ob('the inner solver runs once per outer iteration', len(inner) == 1 and len(k) == 1, inner[0], '%d inner solves per outer iteration' % len(inner))
        ast = al_stats(R, en)
        R.sub(counts_once, en, L, fld(ast, 'iterations_outer'), 'iterations_outer advances by one per outer iteration', inner[0])


def al_stats(R, en):
    return R.loc(en, AL + '::GetStats', st=engine.State(), inst=I62, pred=lambda f: not f.get('cst'))


def al_opt(R, en, name):
    opts = R.loc(en, AL + '::GetOptions', st=engine.State(), inst=I62, pred=lambda f: not f.get('cst'))
    return engine.State().read(fld(opts, name))


# ---------------------------------------------------------------- C11
def cost_group(R, en, key, costs):
    """the stores to the knot point costs made by one loop"""
    return [e for e in en.events if e.kind == 'store' and under(e.loc, costs) and e.loops and e.loops[-1] == key]


def group_traj(R, en, grp):
    """trajectory whose knot points a group of cost stores evaluates"""
    out = set()
    for e in grp:
        cc = [c_ for c_ in cost_calls(en) if c_.loops == e.loops and c_.seq < e.seq][-1:]
        for x in cc:
            l = x.args[0][0]
            if l is None:
                # value-returning accessor: find the trajectory the value was read from
                v = x.args[0][1]
                l = v.a[-1] if v.op in ('init', 'mu') and isinstance(v.a[-1], tm.T) else None
            out.add(root_traj(l) if l is not None else None)
    return out.pop() if len(out) == 1 else None


@rule('C11', 'provenance analysis of the stored knot-point costs, logged costs and violations on every exit of the line search')
def c11(R):
    P = R.P
    st0 = engine.State()
    en = forward(R)
    z = ztraj(R, en)
    cand = candidate(R, en)
    acc = accept(R, en)
    if not acc:
        raise Removed('an improving candidate is adopted', 'ForwardPass never stores to the retained trajectory', en.root)
    accpc = OR(*[e.pc for e in acc])
    costs, before_ = sums(R, en, None)
    N = R.val(en, ILQR + '::NumSegments', st=st0, inst=I62)
    fin = en.final.read(costs)
    init = st0.read(costs)
    zgroups = set()
    for p, v in cases(fin):
        pp = AND(en.final.pc, p)
        if not sat(pp):
            continue
        if v is init:
            R.ob('an adopted candidate\'s costs are stored', not sat(AND(pp, accpc)), acc[0], 'the candidate is adopted but the stored costs are those of the previous trajectory')
            continue
        if v.op == 'mu' and v.a[-1] is costs and not cost_group(R, en, v.a[0], costs):
            # carried round the line search: the costs last evaluated in some earlier pass
            rej = AND(pp, NOT(accpc))
            for s_ in sources(en, v, stop=lambda t: t.op == 'mu' and t.a[-1] is costs and bool(cost_group(R, en, t.a[0], costs))):
                if s_ is init:
                    continue
                grp = cost_group(R, en, s_.a[0], costs) if s_.op == 'mu' else None
                tr = group_traj(R, en, grp) if grp else None
                if tr is cand and cand is not None:
                    R.ob('costs of a rejected candidate are not left behind', not sat(rej), grp[0], 'the line search can end with the costs of a candidate that was not adopted')
                elif tr is not z:
                    R.ob('stored costs belong to the retained trajectory', None if tr is None else False, grp[0] if grp else en.root, 'costs evaluated on %s' % (show(tr) if tr is not None else '?'))
            continue
        if v.op != 'mu' or v.a[-1] is not costs:
            R.ob('stored costs at the end of the line search', None, en.root, show(v)[:200])
            continue
        grp = cost_group(R, en, v.a[0], costs)
        tr = group_traj(R, en, grp) if grp else None
        at = grp[0] if grp else en.root
        if tr is cand and cand is not None:
            R.ob('costs of a rejected candidate are not left behind', implies(pp, accpc, assumed(en)), at, 'the line search can end with the costs of a candidate that was not adopted')
        elif tr is z:
            zgroups.add(v.a[0])
            R.ob('costs of the kept trajectory are restored', True, at, '')
        else:
            R.ob('stored costs belong to the retained trajectory', None if tr is None else False, at, 'costs evaluated on %s' % (show(tr) if tr is not None else '?'))
    for k in zgroups:
        grp = cost_group(R, en, k, costs)
        R.sub(check_costs, en, grp, z, N, 'restored cost', grp[0])
    # the recorded cost
    logs = [(v, e) for n, v, e in logged(en) if n == 'cost']
    R.ob('the cost is recorded on every path of the line search', implies(en.final.pc, OR(*[e.pc for v, e in logs]), assumed(en)) if logs else False, logs[0][1] if logs else en.root, 'some path through the line search records no cost')
    _, _, js = cost_after(R, en, acc[0])
    for i, (v, e) in enumerate(logs):
        later = OR(*[x.pc for _, x in logs[i + 1:] if not x.loops]) if logs[i + 1:] else FALSE
        for p, x in cases(v):
            pp = AND(e.pc, p, NOT(later))
            if not sat(pp):
                continue
            key = x.a[1].a[0] if x.op == 'app' and x.a[0] == 'E.sum' and x.a[1].op == 'mu' and x.a[1].a[1] is costs else None
            if x.op == 'mu':
                # carried round the line search
                summed = lambda t: t.a[1].a[0] if t.op == 'app' and t.a[0] == 'E.sum' and t.a[1].op == 'mu' and t.a[1].a[1] is costs else None
                ss = sources(en, x)
                if all(s_ is before_ for s_ in ss):
                    x = before_
                elif all(s_ is before_ or summed(s_) is not None for s_ in ss):
                    trs = [group_traj(R, en, cost_group(R, en, summed(s_), costs)) for s_ in ss if s_ is not before_]
                    if all(t is cand and cand is not None for t in trs):
                        R.ob('the recorded cost is that of the retained trajectory', not sat(AND(pp, NOT(accpc))), e, 'the cost of a rejected candidate is recorded')
                        continue
            if x is before_:
                R.ob('the recorded cost is that of the retained trajectory', not sat(AND(pp, accpc)), e, 'the previous cost is recorded although a candidate is adopted')
            elif key is not None:
                grp = cost_group(R, en, key, costs)
                tr = group_traj(R, en, grp) if grp else None
                if tr is cand and cand is not None:
                    R.ob('the recorded cost is that of the retained trajectory', implies(pp, accpc, assumed(en)), e, 'the cost of a rejected candidate is recorded')
                else:
                    R.ob('the recorded cost is that of the retained trajectory', True if tr is z else None, e, '')
            else:
                R.ob('the recorded cost is that of the retained trajectory', None if unresolved(x) else False, e, 'recorded %s' % show(x)[:200])
    # the whole iteration: nothing evaluates another trajectory after the line search
    en = solve(R)
    sw = calls(en, 'CalcActionValueExpansion')
    L = en.loops[sw[0].loops[0]] if sw and sw[0].loops else None
    acs = [e for e in accept(R, en) if L is not None and L.key in e.loops]
    lastacc = max([e.seq for e in acs], default=None)
    if lastacc is not None:
        for x in cost_calls(en):
            if x.seq > lastacc and L.key in x.loops:
                l = x.args[0][0]
                tr = root_traj(l) if l is not None else None
                R.ob('costs evaluated after the line search are those of the retained trajectory', tr is z if tr is not None else None, x, 'evaluated on %s' % (show(tr) if tr is not None else '?'))
        after = [e for e in en.events if e.seq > lastacc]
        for x in cost_calls(en):
            if L.key not in x.loops and x.seq > lastacc:
                l = x.args[0][0]
                tr = root_traj(l) if l is not None else None
                R.ob('costs evaluated after the iterations are those of the retained trajectory', tr is z if tr is not None else None, x, '')
        for e in en.events:
            if e.kind == 'store' and e.loc is not None and e.seq > lastacc and inside(e.loc, z):
                R.ob('the retained trajectory does not change after its costs were recorded', False, e, 'store to %s' % show(e.loc))
    # the violation recorded is the callback's, evaluated after the line search
    viol = [(v, e) for n, v, e in logged(en) if n == 'viol']
    R.ob('the violation is recorded in every iteration', bool(viol), viol[0][1] if viol else en.root, 'no Log("viol") in Solve')
    pcs = FALSE
    for v, e in viol:
        if e.loops and e.loops[0] == L.key:
            pcs = OR(pcs, e.pc)
    if viol and L.back is not None and sat(L.back.pc):
        R.ob('the violation is recorded in every iteration', True if implies(L.back.pc, pcs, assumed(en)) else (None if any(unresolved_pc(en, e) for v, e in viol) else False), viol[0][1], 'recorded only under %s' % show(pcs)[-200:])
    for v, e in viol:
        R.ob('the violation is recorded after the line search', lastacc is None or e.seq > lastacc, e, 'recorded before the line search decides')
        R.ob('the recorded violation is the callback value', None if unresolved(v) else (v.op in ('call', 'icall', 'app', 'ret', 'out', 'fcall') or None), e, 'recorded %s' % show(v)[:200])
    # the constrained solver updates multipliers from those values
    en = al_solve(R)
    inner = [e for e in calls(en) if facts.strip_targs(e.fn['q']) == ILQR + '::Solve']
    if inner:
        for x in cost_calls(en):
            if x.seq > inner[-1].seq and x.loops:
                l = x.args[0][0]
                R.ob('no other trajectory is evaluated before the multiplier update', None if l is None else (root_traj(l) is al_traj(R, en)), x, 'evaluated on %s' % (show(l) if l is not None else '?'))
        R.ob('the multiplier update follows the inner solve directly', True, inner[-1], '')


def al_traj(R, en):
    il = R.loc(en, AL + '::GetiLQRSolver', st=engine.State(), inst=I62)
    v = R.val(en, ILQR + '::GetTrajectory', this=il, st=engine.State(), inst=I62)
    return deref(v)


# ---------------------------------------------------------------- C12
def fresh_scalars(R, en, L, st):
    """what an iteration changes does not reach the next solve"""
    r = R.P.recs.get(en.root.get('cls'))
    if r is None:
        return
    for x in r['fs']:
        t = r['T'][x['t']] if 'T' in r else None
        if t is None or t['k'] not in ('int', 'float', 'bool', 'enum') or t.get('ref'):
            continue
        l = fld(THIS, x['n'])
        w = [e for e in en.events if e.kind == 'store' and e.loc is l and L.key in e.loops]
        if not w:
            continue
        v = st.read(l)
        old = contains(v, lambda y: y is raw('init', l))
        R.ob('what iterations change does not carry over into the next solve', False if old else (True if not unresolved(v) else None), w[0], '%s is %s at the first iteration' % (x['n'], show(v)[:120]))


@rule('C12', 'reaching-definition analysis of the solver state at the head of the iteration loop and of the constrained solver\'s initialization order')
def c12(R):
    P = R.P
    st0 = engine.State()
    S = {k: P.enum('altro::SolverStatus', k) for k in ('kUnsolved',)}
    en = solve(R)
    sw = calls(en, 'CalcActionValueExpansion')
    if not sw or not sw[0].loops:
        raise Removed('a solve iterates the backward sweep', 'no backward sweep in a loop of Solve', en.root)
    L = en.loops[sw[0].loops[0]]
    st = L.s0
    stats = R.loc(en, ILQR + '::GetStats', st=st0, inst=I62, pred=lambda f: not f.get('cst'))
    stl, rho = ilqr_loc(R, en, 'GetStatus'), ilqr_loc(R, en, 'GetRegularization')
    costs = R.loc(en, ILQR + '::GetCosts', st=st0, inst=I62)
    N = R.val(en, ILQR + '::NumSegments', st=st0, inst=I62)

    def is_(name, v, want, at=en.root):
        ok = v is want or NF(scalar=lambda t: True).eq(v, want)
        R.ob(name, True if ok else (None if unresolved_opt(v) else False), at, 'value at the first iteration: %s, required %s' % (show(v)[:200], show(want)))
    is_('the status is unsolved when iterating starts', st.read(stl), c(S['kUnsolved']))
    is_('the inner iteration counter starts at zero', st.read(fld(stats, 'iterations_inner')), ZERO)
    is_('the regularization starts at its configured value', st.read(rho), opt(R, en, 'bp_reg_initial'))
    dv = accumulators(R)
    if dv is not None:
        for i in (ZERO, ONE):
            v = st.read(idx(dv, i))
            R.ob('the expected decrease starts at zero', cv(v) == 0 or (None if unresolved(v) else False), en.root, 'value %s' % show(v)[:100])
    R.sub(fresh_scalars, en, L, st)
    # initial cost
    ic = st.read(fld(stats, 'initial_cost'))
    cs = st.read(costs)
    R.ob('the initial cost is the sum of the current costs', ic is app('E.sum', cs) or (None if unresolved_opt(ic) or ic.op == 'mu' else False), en.root, 'initial cost %s' % show(ic)[:200])
    z = ztraj(R, en)
    if cs.op == 'mu':
        grp = cost_group(R, en, cs.a[0], costs)
        if grp:
            R.sub(check_costs, en, grp, z, N, 'initial cost', grp[0])
            ro = [d for d in dyn_calls(en) if d.seq < grp[0].seq and d.args[4][0] is not None and root_traj(d.args[4][0]) is z]
            R.ob('the initial cost is that of the rolled-out trajectory', bool(ro), grp[0], 'no rollout before the initial cost')
            for d in ro[-1:]:
                Lr = en.loops.get(d.loops[-1]) if d.loops else None
                h = Lr.s0.pc if Lr is not None and Lr.s0 is not None else d.pc
                R.ob('every solve rolls the trajectory out first', implies(st.pc, h, assumed(en, grp[0])), d, 'the rollout is skipped on some path, so the states need not belong to the controls')
                R.ob('every segment is rolled out', always(en, d), d, 'a segment is skipped on some path')
    else:
        R.ob('the initial cost is evaluated', None if unresolved(cs) else False, en.root, 'costs at the first iteration: %s' % show(cs)[:200])
    # candidate gets the times and steps
    cand = candidate(R, forward(R))
    if cand is not None:
        for g in ('GetTime', 'GetStep'):
            R.ob('the candidate gets the %s of the current trajectory' % g[3:].lower(), *times_copied(R, en, st, z, cand, N, g, L))
    # sizes of the buffers
    for what, l, n in (('cost buffer', costs, iadd(N, ONE)),):
        sz = [e for e in en.events if e.kind == 'store' and e.loc is l and not e.loops]
        if sz:
            v = sz[-1].val
            R.ob('the cost buffer is reset for every knot point', v.op == 'app' and v.a[0] == 'Zero' and idiff(v.a[1], n) == 0 or (None if unresolved(v) else False), sz[-1], 'reset to %s' % show(v)[:200])
    # ---- constrained solver
    en = al_solve(R)
    inner = [e for e in calls(en) if facts.strip_targs(e.fn['q']) == ILQR + '::Solve']
    first = inner[0].seq if inner else 10 ** 9
    res = [e for e in calls(en, 'Reset') if facts.strip_targs(e.fn['q']) == 'altro::SolverStats::Reset' and e.seq < first]
    R.ob('statistics are cleared at the start of a constrained solve', bool(res) and implies(en.final.pc, res[0].pc) and not res[0].loops, res[0] if res else en.root, 'no SolverStats::Reset before the inner solver runs')
    if res:
        for n, v, e in logged(en):
            if e.seq < first:
                R.ob('statistics are cleared before anything is logged', e.seq > res[-1].seq, e, 'Log("%s") precedes the reset' % n)
    # multipliers and penalties
    ro = al_opt(R, en, 'reset_duals')
    rd = [e for e in calls(en, 'ResetDualVariables') if e.seq < first]
    top = [e for e in rd if facts.strip_targs(e.fn['q']) == AL + '::ResetDualVariables']
    sub = [e for e in rd if e not in top]
    al0 = engine.State()
    at = rd[0] if rd else en.root
    R.ob('multipliers are reset when configured', bool(top) and implies(AND(en.events[0].pc, tobool(ro)), top[0].pc, assumed(en, top[0])) or (not top and bool(sub) or False), at, 'the reset is skipped although reset_duals is set')
    for e in top:
        R.ob('multipliers are kept when not configured', not sat(AND(e.pc, NOT(tobool(ro)))), e, 'multipliers are reset although reset_duals is off')
    ip = al_opt(R, en, 'initial_penalty')
    sp = [e for e in calls(en, 'SetPenalty') if e.seq < first and facts.strip_targs(e.fn['q']) == AL + '::SetPenalty']
    R.ob('penalties are set when a positive initial penalty is configured', bool(sp) and implies(flt(ZERO, ip) if False else tobool(flt(c(0), ip)), sp[0].pc, assumed(en, sp[0])), sp[0] if sp else en.root, 'the initial penalty is not applied on some path with initial_penalty > 0')
    for e in sp:
        v = e.args[0][1]
        got = v if v.op != 'addr' else e.st.read(v.a[0])
        R.ob('penalties start at the configured value', got is ip or (None if unresolved(got) else False), e, 'set to %s' % show(got)[:100])
        R.ob('only a positive initial penalty is applied', implies(e.pc, tobool(flt(c(0), ip))) or None, e, 'applied although not positive')
    # the violation logged first is evaluated on the current trajectory
    for n, v, e in logged(en):
        if n == 'viol' and e.seq < first:
            ev = [x for x in calls(en, q=ILQR + '::Cost') if x.seq < e.seq]
            ok = bool(ev) and any(implies(e.pc, x.pc, assumed(en, x)) for x in ev)
            if not ok and any(x.name in ('Evaluate', 'AugLag', 'CalcExpansion', 'Cost') for x in calls(en) if x.seq < e.seq):
                ok = None
            R.ob('the initial violation is evaluated on the current trajectory', ok, e, 'the constraints are not evaluated before the first violation is recorded')
    stA = [L for L in en.loops.values() if inner and L.key in inner[0].loops]
    if stA:
        s_ = stA[0].s0
        v = s_.read(al_status(R, en))
        R.ob('the status is unsolved when the outer iterations start', v is c(S['kUnsolved']) or (None if unresolved_opt(v) else False), en.root, 'status at the first outer iteration: %s' % show(v)[:100])
    # what Reset clears
    en = R.run('altro::SolverStats::Reset', quiet=('altro::SolverLogger::Clear', 'altro::SolverStats::ProfilerOutputToFile', 'altro::SolverStats::SetCapacity'))
    for nm in ('iterations_inner', 'iterations_outer', 'iterations_total', 'len_', 'initial_cost'):
        if any(x['n'] == nm for x in P.recs.get('altro::SolverStats', {}).get('fields', [])):
            v = en.final.read(fld(THIS, nm))
            R.ob('Reset clears %s' % nm, cv(v) == 0 or (None if unresolved(v) else False), en.root, 'after Reset: %s' % show(v)[:100])


def al_status(R, en):
    v = R.val(en, AL + '::GetStatus', st=engine.State(), inst=I62)
    return v.a[-1]


def times_copied(R, en, st, z, cand, N, g, L):
    """(ok, at, detail): before loop L candidate.g(k) = z.g(k) for every k in 0..N-1 (0..N for times)"""
    sts = []
    for e in en.events:
        if e.kind == 'store' and e.loc is not None and inside(e.loc, cand) and e.seq <= L.mark if hasattr(L, 'mark') and isinstance(L.mark, int) else e.kind == 'store' and e.loc is not None and inside(e.loc, cand) and L.key not in e.loops:
            k = index_of(e.loc)
            if k is None:
                continue
            f = R.P.fn(TR + '::' + g, 1, inst='<6, 2', pred=lambda f: f.get('cst'))
            l, _ = R.P and tget_loc(R, en, g, cand, k, e.st)
            if e.loc is l:
                sts.append((e, k))
    if not sts:
        return False, en.root, 'never set before the iterations'
    ivs = []
    hi = iadd(N, ONE) if g == 'GetTime' else N
    exact = set()

    def guard_ok(en, e, k, hi):
        q = inrange(en, e, k, ZERO, hi)
        return e.loops and always(en, e, q) and implies(e.pc, q, assumed(en, e))
    for e, k in sts:
        _, want = tget(R, en, g, z, k, e.st)
        if e.val is not want and not NF(scalar=lambda t: True).eq(e.val, want):
            return (None if unresolved_opt(e.val) else False), e, 'set to %s, required %s' % (show(e.val)[:150], show(want))
        iv = interval(en, e, k)
        if iv is None:
            return None, e, 'range unknown'
        if not always(en, e) and guard_ok(en, e, k, hi):
            iv = clipped(iv, ZERO, hi)
            exact.add(e.seq)
        ivs.append(iv[:2])
    # on every path: each store, or its loop, is reached whenever the iterations are, and no pass skips the store
    sure = []
    for e, k in sts:
        Le = en.loops.get(e.loops[-1]) if e.loops else None
        if Le is not None and Le.s0 is not None:
            a = assumed(en, e)
            sure.append(implies(AND(st.pc, ilt(Le.lo, Le.hi)) if Le.lo is not None and Le.hi is not None else st.pc, Le.s0.pc, a) and (e.seq in exact or always(en, e) is not False))
        else:
            sure.append(implies(st.pc, e.pc, assumed(en, e)))
    if not all(sure):
        e = sts[sure.index(False)][0]
        return (None if unresolved_pc(en, e) else False), e, 'set only under %s' % show(e.pc)[:300]
    r = tiles(ivs, ZERO, hi)
    if r is False and g == 'GetStep':
        r = tiles(ivs, ZERO, iadd(N, ONE))
    return r, sts[0][0], 'knot points covered: %s' % [tuple(map(show, i)) for i in ivs]


def tget_loc(R, en, g, tr, k, st):
    """location behind a value-returning trajectory getter"""
    f = R.P.fn(TR + '::' + g, 1, inst='<6, 2', pred=lambda f: f.get('cst'))
    s0 = engine.State()
    kind, v, s2 = en.eval_fn(f, tr, s0, [k])
    if kind == 'loc':
        return v, None
    while v.op == 'init' and isinstance(v.a[-1], tm.T):
        return v.a[-1], v
    return None, v
