"""Rollouts, line search, iteration control and expansions of the iLQR solver."""
import copy
from rulelib import *
from rules.kpf import *

TR = 'altro::Trajectory'
ST0 = engine.State()


def ilqr_loc(R, en, name):
    """location behind a value-returning getter of the solver (reads of the entry state name their location)"""
    v = R.val(en, ILQR + '::' + name, st=engine.State(), inst=I62)
    while v.op in ('init',) and isinstance(v.a[-1], tm.T):
        return v.a[-1]
    raise facts.ToolError('%s does not return a field' % name)


def opt(R, en, name):
    opts = R.loc(en, ILQR + '::GetOptions', st=engine.State(), inst=I62, pred=lambda f: not f.get('cst'))
    return engine.State().read(fld(opts, name))


def ztraj(R, en):
    """location of the trajectory the solver retains"""
    return deref(engine.State().read(ilqr_loc(R, en, 'GetTrajectory')))


def inside(l, root):
    """l lies inside root, elements and objects owned by it included"""
    while True:
        if l is root:
            return True
        if l.op in ('fld', 'idx', 'blk') and isinstance(l.a[0], tm.T):
            l = l.a[0]
        elif l.op == 'deref':
            p = l.a[0]
            if p.op in ('init', 'mu', 'hv') and isinstance(p.a[-1], tm.T):
                l = p.a[-1]
            else:
                return False
        else:
            return False


def root_traj(l):
    """the trajectory object (behind a pointer field or a parameter) that a knot point location belongs to"""
    while True:
        if l.op == 'deref' or l.op == 'obj':
            return l
        if l.op in ('fld', 'idx', 'blk') and isinstance(l.a[0], tm.T):
            l = l.a[0]
        else:
            return None


def dyn_calls(en):
    """discrete dynamics evaluations x' = f(x, u, t, h)"""
    return [e for e in calls(en, 'Evaluate') if e.extra == 'virtual' and len(e.args) == 5]


def cost_calls(en):
    return [e for e in calls(en, 'Evaluate') if e.extra == 'virtual' and len(e.args) == 2]


def index_of(l):
    """k of traj[k].x"""
    while l is not None and l.op in ('fld', 'blk', 'idx'):
        if l.op == 'idx':
            return l.a[1]
        l = l.a[0]
    return None


def tget(R, en, g, tr, k, st):
    """(location or None, value) of a trajectory getter"""
    f = R.P.fn(TR + '::' + g, 1, inst='<6, 2', pred=lambda f: f.get('cst') if g in ('GetTime', 'GetStep') else not f.get('cst'))
    kind, v, s2 = en.eval_fn(f, tr, st, [k])
    if kind == 'loc':
        return v, (s2.read(v) if v.op != 'ite' else None)
    return None, v


def kp_model(R, en, recv_k, st):
    return deref(R.val(en, Q + '::GetModelPtr', this=recv_k, st=st, inst=I62))


def kp_cost(R, en, recv_k, st):
    return deref(R.val(en, Q + '::GetCostFunPtr', this=recv_k, st=st, inst=I62))


def kp_of(R, en, k, st):
    f = R.P.fn(ILQR + '::GetKnotPointFunction', 1, inst=I62)
    kind, v, s2 = en.eval_fn(f, THIS, st, [k])
    return v


def forward(R):
    if 'fp' not in R.cache:
        R.cache['fp'] = R.run(ILQR + '::ForwardPass', inst=I62, quiet=STATS)
    return R.cache['fp']


def accept(R, en):
    """stores that change the retained trajectory"""
    z = ztraj(R, en)
    return [e for e in en.events if e.kind == 'store' and e.loc is not None and inside(e.loc, z)]


def candidate(R, en):
    """the trajectory object that the closed-loop rollout fills"""
    out = set()
    for e in dyn_calls(en):
        l = e.args[4][0]
        if l is not None:
            r = root_traj(l)
            if r is not None:
                out.add(r)
    return out.pop() if len(out) == 1 else None


def step_length(R, en, ev):
    """step length used by the rollout that precedes ev"""
    rs = [e for e in calls(en) if facts.strip_targs(e.fn['q']) == ILQR + '::RolloutClosedLoop' and e.seq < ev.seq]
    vs = {e.args[0][1] for e in rs if e.args}
    return vs.pop() if len(vs) == 1 else None


def sums(R, en, ev):
    """(cost before, cost of the candidate) as terms: sums of the stored knot point costs"""
    costs = R.loc(en, ILQR + '::GetCosts', st=engine.State(), inst=I62)
    before = app('E.sum', engine.State().read(costs))
    return costs, before


def lower_atoms(pc, a):
    """terms X that pc compares with the bound a as a <= X (either writing)"""
    out = []
    for t in atoms(pc):
        if t.op == 'fle' and t.a[0] is a:
            out.append((t.a[1], mk(t, TRUE, FALSE)))
        elif t.op == 'flt' and t.a[1] is a:
            out.append((t.a[0], mk(t, FALSE, TRUE)))
    return out


def upper_atoms(pc, a):
    out = []
    for t in atoms(pc):
        if t.op == 'fle' and t.a[1] is a:
            out.append((t.a[0], mk(t, TRUE, FALSE)))
        elif t.op == 'flt' and t.a[0] is a:
            out.append((t.a[1], mk(t, FALSE, TRUE)))
    return out


def cost_after(R, en, ev):
    """terms X with pc => X < J0"""
    costs, before = sums(R, en, ev)
    nf = NF()
    out = []
    for t in atoms(ev.pc):
        if t.op == 'flt' and t.a[1] is before and implies(ev.pc, mk(t, TRUE, FALSE)):
            out.append(t.a[0])
    return costs, before, out


def prediction(R, en, ev, al, dv):
    """does the acceptance test use ratio = (J0 - J) / -(a d1 + a^2 d2)?"""
    costs, before, js = cost_after(R, en, ev)
    if not js:
        return None, 'candidate cost not identified'
    st = engine.State()
    d1, d2 = st.read(idx(dv, ZERO)), st.read(idx(dv, ONE))
    lb = opt(R, en, 'line_search_lower_bound')
    ub = opt(R, en, 'line_search_upper_bound')
    res = True
    why = ''
    for bound, ats in ((lb, lower_atoms(ev.pc, lb)), (ub, upper_atoms(ev.pc, ub))):
        good = FALSE
        shown = []
        for x, p in ats:
            nf = NF(scalar=lambda t: True)
            k = cv(x)
            if k is not None:
                if k < 0:
                    good = OR(good, p)
                shown.append(show(x))
                continue
            ok = False
            for j in js:
                num = nf.add(nf.nf(before), nf.nf(j), -1)
                a = nf.nf(al)
                den = nf.scale(nf.add(nf.mul(a, nf.nf(d1)), nf.mul(nf.mul(a, a), nf.nf(d2))), -1)
                if nf.nf(x) == nf.mul(num, nf.inv(den)):
                    ok = True
            if ok:
                good = OR(good, p)
            else:
                shown.append(show(x)[:300])
        if not implies(ev.pc, good):
            bad = any(unresolved_scalar(x, al) for x, p in ats)
            return (None if bad and ats else False), 'acceptance does not require the ratio (J0-J)/-(a d1 + a^2 d2) to respect %s; compared: %s' % (show(bound), shown[:4])
    return res, why


def unresolved_scalar(x, al):
    return contains(x, lambda y: y.op in ('hv', 'unk', 'undef'))


def regdir(R, en, ev, rho):
    """('inc'|'dec'|'reset'|None, in bounds?) of a store to the regularization, judged by its final value"""
    rmin, rmax, f = opt(R, en, 'bp_reg_min'), opt(R, en, 'bp_reg_max'), opt(R, en, 'bp_reg_increase_factor')
    init = opt(R, en, 'bp_reg_initial')
    if ev.val is init:
        return 'reset', True, ''
    nf = NF(scalar=lambda t: True)
    inb = True
    why = ''
    dirs = set()
    old = ev.old if ev.old is not None else None
    return nf, rmin, rmax, f


@rule('C01', 'path-condition implication at every store that replaces the retained trajectory')
def c01(R):
    P = R.P
    en = forward(R)
    acc = accept(R, en)
    z = ztraj(R, en)
    zf = ilqr_loc(R, en, 'GetTrajectory')
    if not acc:
        raise Removed('an improving candidate is adopted', 'ForwardPass never stores to the retained trajectory', en.root)
    for e in en.events:
        if e.kind == 'store' and e.loc is zf:
            R.ob('the trajectory object handed to the user is kept', False, e, 'the pointer to the retained trajectory is replaced')
    N = R.val(en, ILQR + '::NumSegments', st=engine.State(), inst=I62)
    cand = candidate(R, en)
    for ev in acc:
        costs, before, js = cost_after(R, en, ev)
        R.ob('adopted only with strictly lower cost', bool(js) or (None if any(contains(t, lambda x: x is before) and t.op not in ('flt', 'fle') for t in atoms(ev.pc)) else False), ev,
             'the path condition of this store does not imply (candidate cost) < (current cost)')
        # that cost is the cost of the very candidate
        for j in js:
            R.sub(cost_of_candidate, en, ev, j, costs, cand, N)
        # rollout completed
        for d in dyn_calls(en):
            if d.seq < ev.seq and d.loops:
                L = en.loops[d.loops[-1]]
                if L.cond is not None and not L.do:
                    R.ob('adopted only after a complete rollout', implies(ev.pc, NOT(tobool(L.cond)), assumed(en, ev)), ev, 'reachable although the rollout was aborted')
        # what is stored is the candidate
        if cand is not None:
            want = [ev.st.read(swap_root(ev.loc, z, cand))]
            got = ev.val
            pr = lambda t: restrict(t, ev.pc)
            ok = any(pr(got) is pr(w) or samerooted(pr(got), pr(w)) for w in want)
            R.ob('the candidate itself is adopted', ok or None, ev, 'stored value is not the candidate trajectory')
        al = step_length(R, en, ev)
        dv = accumulators(R)
        if al is not None and dv is not None:
            ok, why = prediction(R, en, ev, al, dv)
            R.ob('adopted only with the improvement ratio in bounds', ok, ev, why)
        else:
            R.ob('adopted only with the improvement ratio in bounds', None, ev, 'step length or accumulator not identified')
    # otherwise the regularization is increased
    rho = ilqr_loc(R, en, 'GetRegularization')
    accpc = OR(*[e.pc for e in acc])
    inc = [e for e in en.events if e.kind == 'store' and e.loc is rho and not any(implies(e.pc, a.pc) for a in acc)]
    ok = bool(inc) and implies(AND(en.final.pc, NOT(accpc)), OR(*[e.pc for e in inc]), assumed(en))
    R.ob('a failed line search increases the regularization', ok, en.root, 'no regularization increase on some path that keeps the trajectory')
    for g in reg_groups(R, en, rho):
        if g in inc or g.pc in [e.pc for e in inc]:
            k, inb, why = reg_kind(R, en, g, rho)
            R.ob('a failed line search moves the regularization up', k == 'inc' if k else None, g, 'regularization becomes %s (%s)' % (show(g.val)[:200], why))
    for e in en.events:
        if e.kind == 'store' and e.loc is rho:
            R.ob('the regularization is raised only when no step qualifies', not sat(AND(e.pc, accpc)), e, 'the regularization changes although a step was adopted')


def samerooted(a, b):
    """aggregates describing the same content of different objects"""
    return a.op == b.op == 'agg' and a.a[1:] == b.a[1:] or a is b


def swap_root(l, old, new):
    if l is old:
        return new
    if l.op in ('fld', 'idx', 'blk') and isinstance(l.a[0], tm.T):
        return {'fld': fld, 'idx': idx}.get(l.op, lambda b, *x: raw('blk', b, *x))(swap_root(l.a[0], old, new), *l.a[1:])
    return l


def accumulators(R):
    if 'dv' in R.cache:
        return R.cache['dv']
    en = backward(R)
    dv = None
    for e in calls(en):
        if facts.strip_targs(e.fn['q']) == Q + '::AddCostToGo' and e.args and e.args[0][1] is not None and e.args[0][1].op == 'addr':
            l = e.args[0][1].a[0]
            dv = l.a[0] if l.op == 'idx' and l.a[1] is ZERO else l
    R.cache['dv'] = dv
    return dv


def cost_of_candidate(R, en, ev, j, costs, cand, N):
    """j is the sum of costs evaluated at the candidate, at every knot point, after its rollout and before adoption"""
    ok = None
    why = ''
    if j.op == 'app' and j.a[0] == 'E.sum' and j.a[1].op == 'mu' and j.a[1].a[1] is costs:
        key = j.a[1].a[0]
        sts = [e for e in en.events if e.kind == 'store' and under(e.loc, costs) and key in e.loops]
        R.ob('candidate cost is stored per knot point', bool(sts) or None, ev, 'no store to the costs in the loop that is summed')
        R.sub(check_costs, en, sts, cand, N, 'candidate cost', ev)
        last = max([e.seq for e in sts], default=0)
        late = [e for e in en.events if e.kind == 'store' and cand is not None and inside(e.loc, cand) and last < e.seq < ev.seq]
        late += [d for d in dyn_calls(en) if last < d.seq < ev.seq]
        R.ob('the candidate does not change between evaluation and adoption', not late, late[0] if late else ev, 'the candidate changes after its cost was evaluated')
        first = min([e.seq for e in sts], default=0)
        ds = [d for d in dyn_calls(en) if d.seq < first]
        R.ob('the cost is evaluated after the rollout', bool(ds), ev, 'cost evaluated before the rollout')
        return
    R.ob('the compared cost is that of the candidate', ok, ev, 'compared cost %s' % show(j)[:200])


def check_costs(R, en, sts, tr, N, what, at):
    """each store writes costs[k] = cost_k(x_k, u_k) of trajectory tr, k = 0..N"""
    ivs = []
    for e in sts:
        k = e.loc.a[1] if e.loc.op == 'idx' else None
        v = e.val
        if k is None or v.op != 'app' or v.a[0] != 'V:Evaluate' or len(v.a) != 4:
            R.ob('%s is the cost function value' % what, None if unresolved(v) or k is None else False, e, 'stored %s' % show(v)[:200])
            continue
        kp = kp_of(R, en, k, e.st)
        cf = kp_cost(R, en, kp, e.st)
        R.ob('%s uses the cost function of its knot point' % what, deref(v.a[1]) is cf or deref(v.a[1]).op == 'deref' and deref(v.a[1]).a[0] is cf.a[0], e, 'receiver %s, required %s' % (show(v.a[1]), show(cf)))
        cc = [c_ for c_ in cost_calls(en) if c_.loops == e.loops and c_.seq < e.seq]
        cc = cc[-1:] if cc else []
        if tr is not None and cc:
            for i, g in enumerate(('State', 'Control')):
                l, val = tget(R, en, g, tr, k, e.st)
                got = cc[0].args[i][0]
                R.ob('%s is evaluated at its own %s' % (what, g.lower()), (got is l) if got is not None else (True if cc[0].args[i][1] is val else None), e,
                     'evaluated at %s, required %s' % (show(got) if got is not None else show(cc[0].args[i][1])[:100], show(l)))
        iv = interval(en, e, k)
        if iv is None:
            ivs = None
            break
        ivs.append(iv[:2])
        R.ob('%s computed unconditionally' % what, always(en, e, allow=TRUE), e, 'skipped on some path')
    R.ob('%s covers every knot point' % what, tiles(ivs, ZERO, iadd(N, ONE)) if ivs is not None else None, sts[0] if sts else at,
         'knot points covered: %s' % ([tuple(map(show, i)) for i in ivs] if ivs is not None else '?'))


def reg_groups(R, en, rho):
    """runs of stores to the regularization in one function activation, each as one adjustment: a first store and the
    stores that follow it under the same or further conditions (clamping)"""
    sts = [e for e in en.events if e.kind == 'store' and e.loc is rho]
    out = []
    i = 0
    while i < len(sts):
        e = sts[i]
        j, val, pc = i, e.val, e.pc
        while j + 1 < len(sts) and sts[j + 1].stack == e.stack and sts[j + 1].loops == e.loops:
            n = sts[j + 1]
            if implies(pc, n.pc):
                val, pc = n.val, n.pc
            elif implies(n.pc, pc):
                val = ite(n.pc, n.val, val)
            else:
                break
            j += 1
        g = copy.copy(sts[j])
        g.old = e.st.read(rho)
        g.val, g.pc = val, pc
        g.extra = 'reg'
        out.append(g)
        i = j + 1
    return out


def norm2(v):
    return app('lpNorm', s('2'), v)


def reg_kind(R, en, ev, rho):
    """kind of an adjustment, judged on the function that performs it when that function does nothing else"""
    first = None
    for i in range(len(ev.stack) - 1, -1, -1):
        f = R.P.fns.get(ev.stack[i][0])
        if f is None or f['key'] == en.root['key']:
            continue
        key = ('reg', f['key'])
        if key not in R.cache:
            e2 = R.run(None, fn=f, quiet=STATS)
            R.cache[key] = (e2, reg_groups(R, e2, rho))
        e2, gs = R.cache[key]
        for g in gs:
            if g.line == ev.line and not g.loops and g.stack == ev.stack[i + 1:]:
                r = reg_kind1(R, e2, g, rho)
                if r[0] != 'other':
                    return r
                if first is None and not f['ps']:
                    first = r
    if first is not None:
        return first
    k, b, why = reg_kind1(R, en, ev, rho)
    if k == 'other' and ev.loops != () or k == 'other' and any(x.op == 'mu' for x in walk(ev.val)):
        k = None
    return k, b, why


def reg_kind1(R, en, ev, rho):
    """('inc'|'dec'|'reset'|None, within bounds True/False/None, explanation)"""
    rmin, rmax, f = opt(R, en, 'bp_reg_min'), opt(R, en, 'bp_reg_max'), opt(R, en, 'bp_reg_increase_factor')
    if ev.val is opt(R, en, 'bp_reg_initial'):
        return 'reset', True, 'initial value'
    nf = NF(scalar=lambda t: True)
    one = nf.nf(c(1))
    invf = nf.inv(nf.nf(f))
    inb = True
    kinds = set()
    why = []
    olds = cases(ev.old) if ev.old is not None else [(TRUE, UNDEF)]
    base = ev.pc
    for p, v in cases(ev.val):
        pp = AND(base, p)
        if not sat(pp):
            continue
        # bounds
        if v is not rmin and v is not rmax:
            lo = any(implies(pp, q) for x, q in lower_atoms(pp, rmin) if x is v)
            hi = any(implies(pp, q) for x, q in upper_atoms(pp, rmax) if x is v)
            if not (lo and hi):
                inb = False if not unresolved_opt(v) else None
                why.append('%s is not clamped' % show(v)[:120])
        # direction
        if v is rmin or v is rmax:
            continue
        for p2, o in olds:
            p3 = AND(pp, p2)
            if not sat(p3):
                continue
            fac = nf.mul(nf.nf(v), nf.inv(nf.nf(o)))
            if fac == nf.nf(f):
                kinds.add('inc')
            elif fac == invf:
                kinds.add('dec')
            else:
                k = None
                for t in atoms(p3):
                    if t.op not in ('flt', 'fle'):
                        continue
                    a, b = nf.nf(t.a[0]), nf.nf(t.a[1])
                    T_, F_ = mk(t, TRUE, FALSE), mk(t, FALSE, TRUE)
                    # both sides compared with a positive quantity: factor >= f, or factor <= 1/f
                    pos = (one, nf.nf(f), invf)
                    for want, ref in (('inc', invf), ('dec', nf.nf(f))):
                        ratio = nf.mul(fac, ref)
                        up = b in pos and nf.mul(a, nf.inv(b)) == ratio      # t: ratio < 1
                        dn = a in pos and nf.mul(b, nf.inv(a)) == ratio      # t: ratio > 1
                        if up and implies(p3, F_ if want == 'inc' else T_) or dn and implies(p3, T_ if want == 'inc' else F_):
                            k = want
                kinds.add(k or 'other')
                if k is None:
                    why.append('factor %s' % nf.show(fac)[:160])
    if not kinds:
        return None, inb, 'only bounds'
    if kinds == {'inc'}:
        return 'inc', inb, '; '.join(why)
    if kinds == {'dec'}:
        return 'dec', inb, '; '.join(why)
    return 'other', inb, '; '.join(why)


def unresolved_opt(v):
    return contains(v, lambda x: x.op in ('hv', 'unk', 'undef'))


def initial_state_value(R, en, st):
    """content of the problem's shared initial state"""
    v = R.val(en, ILQR + '::GetInitialState', st=engine.State(), inst=I62)
    return st.read(deref(v))


def rollout_obligations(R, en, tr, what):
    """tr.x_0 = initial state; tr.x_{k+1} = f_k(tr.x_k, tr.u_k, tr.t_k, tr.h_k) for k = 0..N-1 in order"""
    N = R.val(en, ILQR + '::NumSegments', st=engine.State(), inst=I62)
    ds = [d for d in dyn_calls(en) if d.args[4][0] is not None and root_traj(d.args[4][0]) is tr]
    if not ds:
        raise Removed('%s simulates the dynamics' % what, 'no dynamics evaluation into the rolled-out trajectory', en.root)
    ivs = []
    for d in ds:
        k1 = index_of(d.args[4][0])
        k = isub(k1, ONE) if k1 is not None else None
        if k is None:
            R.ob('%s: next state of a segment' % what, None, d, show(d.args[4][0]))
            continue
        lo, _ = tget(R, en, 'State', tr, k1, d.st)
        R.ob('%s writes the next state' % what, d.args[4][0] is lo, d, 'output %s, required %s' % (show(d.args[4][0]), show(lo)))
        for i, g in ((0, 'State'), (1, 'Control')):
            l, v = tget(R, en, g, tr, k, d.st)
            got = d.args[i][0]
            ok = got is l if got is not None else (d.args[i][1] is v or None)
            R.ob('%s starts from its own %s' % (what, g.lower()), ok, d, 'argument is %s, required %s' % (show(got if got is not None else d.args[i][1])[:200], show(l)))
        for i, g in ((2, 'GetTime'), (3, 'GetStep')):
            _, v = tget(R, en, g, tr, k, d.st)
            ok = d.args[i][1] is v or NF(scalar=lambda t: True).eq(d.args[i][1], v)
            R.ob('%s uses the segment\'s own %s' % (what, g[3:].lower()), ok, d, 'argument is %s, required %s' % (show(d.args[i][1])[:200], show(v)))
        kp = kp_of(R, en, k, d.st)
        md = kp_model(R, en, kp, d.st)
        R.ob('%s uses the segment\'s own dynamics' % what, d.recv is md, d, 'receiver %s, required %s' % (show(d.recv), show(md)))
        iv = interval(en, d, k)
        ivs = None if iv is None or ivs is None else ivs + [iv[:2]]
        if iv is not None:
            R.ob('%s goes forward in time' % what, iv[2] >= 0, d, 'segments visited in descending order')
        R.ob('%s simulates every segment unconditionally' % what, always(en, d), d, 'the dynamics evaluation is skipped on some path')
        # state and control do not change after they were used
        for e in en.events:
            if e.kind == 'store' and e.loc is not None and inside(e.loc, tr):
                if e.loops == d.loops and d.loops and e.seq > d.seq:
                    R.ob('%s: operands stay as simulated' % what, False, e, 'store to %s after the dynamics were evaluated' % show(e.loc))
    R.ob('%s covers segments 0..N-1' % what, tiles(ivs, ZERO, N) if ivs is not None else None, ds[0], 'segments: %s' % ([tuple(map(show, i)) for i in ivs] if ivs else '?'))
    # first state
    x0, _ = tget(R, en, 'State', tr, ZERO, engine.State())
    want = initial_state_value(R, en, engine.State())
    first = min(d.seq for d in ds)
    ini = [e for e in en.events if e.kind == 'store' and e.loc is x0]
    okv = [e for e in ini if e.seq < first and NF().eq(e.val, want)]
    R.ob('%s starts at the initial state' % what, bool(okv) and (implies(okv[-1].pc, okv[-1].pc)) and okv[-1] is [e for e in ini if e.seq < first][-1], ini[0] if ini else ds[0],
         'first state is %s, required the current initial state' % ([show(e.val)[:100] for e in ini] or 'never set'))
    for e in ini:
        if e in okv:
            # set whenever the rollout runs
            dl = [d for d in ds]
            R.ob('%s: initial state set on every path' % what, all(implies(d.pc, e.pc) for d in dl) and e.loops == dl[0].loops[:len(e.loops)], e, 'initial state set conditionally')
        elif e.seq > first:
            R.ob('%s: initial state not overwritten' % what, False, e, 'stored %s' % show(e.val)[:100])
    # other state writes
    for e in en.events:
        if e.kind == 'store' and e.loc is not None and inside(e.loc, tr) and e not in ini:
            kk = index_of(e.loc)
            if kk is not None:
                l, _ = tget(R, en, 'State', tr, kk, e.st)
                if under(e.loc, l):
                    R.ob('%s: states come only from the dynamics' % what, False, e, 'state %s is stored %s' % (show(e.loc), show(e.val)[:100]))
    return ds


@rule('C02', 'operand and index-range analysis of every dynamics evaluation in a rollout; who-may-write analysis of trajectory states')
def c02(R):
    en = R.run(ILQR + '::Rollout', inst=I62, quiet=STATS)
    R.sub(rollout_obligations, en, ztraj(R, en), 'open-loop rollout')
    en = R.run(ILQR + '::RolloutClosedLoop', inst=I62, quiet=STATS)
    tr = candidate(R, en)
    if tr is None:
        raise Removed('closed-loop rollout simulates the dynamics', 'no single candidate trajectory is simulated', en.root)
    R.sub(rollout_obligations, en, tr, 'closed-loop rollout')
    z = ztraj(R, en)
    R.ob('closed-loop rollout leaves the current trajectory alone', tr is not z and not [e for e in en.events if e.kind == 'store' and inside(e.loc, z)], en.root, 'writes the retained trajectory')
    # who writes states during a solve
    en = solve(R)
    nst = 0
    ds = dyn_calls(en)
    for e in en.events:
        if e.kind != 'store' or e.loc is None:
            continue
        for root in (z, tr):
            if not inside(e.loc, root):
                continue
            nst += 1
            k = index_of(e.loc)
            if k is not None and e.loc is not idx(root, k):
                l, _ = tget(R, en, 'State', root, k, e.st)
                if under(e.loc, l):
                    ok = k is ZERO and NF().eq(e.val, initial_state_value(R, en, e.st))
                    R.ob('states are written only by rollouts and copies', ok, e, 'store %s := %s' % (show(e.loc), show(e.val)[:120]))
            elif root is tr and not under_any_call(e, ('RolloutClosedLoop',)):
                R.ob('states are written only by rollouts and copies', None, e, 'store to %s' % show(e.loc))
            elif root is z:
                want = restrict(e.st.read(swap_root(e.loc, z, tr)), e.pc)
                got = restrict(e.val, e.pc)
                R.ob('whole-trajectory copies take the rolled-out candidate', True if got is want or samerooted(got, want) else None, e, 'stored value is not the candidate')
    R.ob('trajectory stores in a solve were found', nst > 0, en.root, '')
    # the trajectory is rolled out before the first expansion
    z0 = [d for d in ds if d.args[4][0] is not None and root_traj(d.args[4][0]) is z]
    b = [e for e in calls(en, 'CalcActionValueExpansion')]
    R.ob('a solve rolls the given trajectory out first', bool(z0) and bool(b) and min(d.seq for d in z0) < min(x.seq for x in b) and all(len(d.loops) == 1 for d in z0[:1]), z0[0] if z0 else en.root, 'no open-loop rollout before the first backward pass')


def under_any_call(e, names):
    return any(k.split('(')[0].split('::')[-1] in names for k, _, _ in e.stack)


def solve(R, **kw):
    key = ('solve', tuple(sorted(kw.items())))
    if key not in R.cache:
        R.cache[key] = R.run(ILQR + '::Solve', inst=I62, quiet=STATS + ('altro::SolverStats::Reset',), **kw)
    return R.cache[key]


@rule('C03', 'symbolic normal form of the applied control and path conditions of the bound checks')
def c03(R):
    P = R.P
    en = R.run(ILQR + '::RolloutClosedLoop', inst=I62, quiet=STATS)
    tr = candidate(R, en)
    if tr is None:
        raise Removed('closed-loop rollout simulates the dynamics', 'no single candidate trajectory is simulated', en.root)
    z = ztraj(R, en)
    st0 = engine.State()
    al = st0.read(raw('obj', 'arg0'))
    ds = [d for d in dyn_calls(en)]
    stl = ilqr_loc(R, en, 'GetStatus')
    sl, cl, uns = (P.enum('altro::SolverStatus', n) for n in ('kStateLimit', 'kControlLimit', 'kUnsolved'))
    smax, cmax, chk = opt(R, en, 'state_max'), opt(R, en, 'control_max'), tobool(opt(R, en, 'check_forwardpass_bounds'))
    N = R.val(en, ILQR + '::NumSegments', st=st0, inst=I62)
    lims = []
    for d in ds:
        k = isub(index_of(d.args[4][0]), ONE)
        ul, uv = tget(R, en, 'Control', tr, k, d.st)
        # the value of the control when the dynamics are evaluated
        cs = [e for e in en.events if e.kind == 'store' and under(e.loc, ul) and e.seq < d.seq and e.loops == d.loops]
        at = cs[-1] if cs else d
        if not cs:
            R.ob('the policy control is applied', False, d, 'the control simulated is never set in this rollout')
            continue
        R.ob('the policy control is set for every segment', implies(d.pc, cs[-1].pc), cs[-1], 'control set conditionally')
        st = cs[0].st
        kp = kp_of(R, en, k, st)
        K = R.val(en, Q + '::GetFeedbackGain', this=kp, st=st, inst=I62)
        dd = R.val(en, Q + '::GetFeedforwardGain', this=kp, st=st, inst=I62)
        _, xb = tget(R, en, 'State', tr, k, st)
        _, xr = tget(R, en, 'State', z, k, st)
        _, ur = tget(R, en, 'Control', z, k, st)
        want = raw('+', raw('+', ur, raw('*', K, raw('-', xb, xr))), raw('*', dd, al))
        nf = NF(scalar=lambda t: True if t is al else None)
        ok = nf.eq(uv, want)
        bad = False if not contains(uv, lambda x: x.op in ('hv', 'undef', 'unk')) else None
        R.ob('control = reference + K*(x - xref) + alpha*d', True if ok else bad, at, 'found %s, required %s' % (show(uv)[:400], show(want)[:400]))
        iv = interval(en, d, k)
        R.ob('the policy is applied on segments 0..N-1', tiles([iv[:2]], ZERO, N) if iv else None, d, '')
        # bounds
        nxt, _ = tget(R, en, 'State', tr, iadd(k, ONE), d.st)
        L = en.loops[d.loops[-1]] if d.loops else None
        after = [e for e in en.events if e.seq > d.seq and e.loops == d.loops]
        xnv = None
        for e in after:
            xnv = e.st.read(nxt)
            break
        sv = flt(smax, norm2(xnv)) if xnv is not None else None
        cv_ = flt(cmax, norm2(uv))
        for e in [x for x in en.events if x.kind == 'store' and x.loc is stl]:
            for val, viol, nm, other in ((sl, sv, 'state', smax), (cl, cv_, 'control', cmax)):
                if e.val is c(val) and viol is not None:
                    known = implies(e.pc, AND(chk, viol))
                    if not known and any(contains(a, lambda x: x is other) and not contains(a, lambda x: x.op == 'app' and x.a[0] in ('E.norm', 'lpNorm')) for a in atoms(e.pc)):
                        known = None
                    R.ob('%s limit reported only when exceeded' % nm, known, e, 'path condition %s' % show(e.pc)[:400])
        if L is not None and L.back is not None and sv is not None:
            viol = AND(chk, OR(sv, cv_))
            odd = any(contains(a, lambda x: x in (smax, cmax)) and not contains(a, lambda x: x.op == 'app' and x.a[0] in ('E.norm', 'lpNorm')) for a in atoms(L.back.pc))
            R.ob('the rollout continues only within limits', True if not sat(AND(L.back.pc, viol)) else (None if odd else False), d, 'the rollout continues although a limit is exceeded')
            # and aborts only on a violation
            ab = AND(reach(en, d), assumed(en))
            R.ob('the rollout aborts only on a violated limit', True if implies(AND(ab, NOT(viol)), L.back.pc, assumed(en)) else (None if odd else False), d, 'the rollout can stop early without a violated limit')
            if en.ret is not None:
                done = NOT(tobool(L.cond)) if L.cond is not None else TRUE
                rt = tobool(en.ret)
                # at the exit, breaks carry the violation
                R.ob('success is returned only after a complete rollout', implies(AND(en.final.pc, rt), done), en.root, 'returns true although aborted')
                fs = en.final.read(stl)
                isuns = tobool(map1(lambda v: tobool(eq(v, c(uns), True)), fs))
                R.ob('a complete rollout reports no limit', implies(AND(en.final.pc, rt), isuns), en.root, 'status after success: %s' % show(restrict(fs, rt))[:200])
                lim = OR(tobool(map1(lambda v: tobool(eq(v, c(sl), True)), fs)), tobool(map1(lambda v: tobool(eq(v, c(cl), True)), fs)))
                R.ob('an aborted rollout reports the limit', implies(AND(en.final.pc, NOT(rt)), lim), en.root, 'returns false with status %s' % show(restrict(fs, NOT(rt)))[:200])
                R.ob('an incomplete rollout returns failure', implies(AND(en.final.pc, NOT(done)), NOT(rt)), en.root, '')


@rule('C07', 'clamping and growth-factor analysis of every store to the regularization; who-may-write analysis of its field')
def c07(R):
    P = R.P
    ok_methods = 0
    rho = None
    runs = []
    for nm in ('BackwardPass', 'ForwardPass', 'Solve', 'SolveSetup', 'Rollout', 'RolloutClosedLoop', 'UpdateConvergenceStatistics', 'IsDone', 'Cost', 'SetTrajectory', 'SetConstraintCallback', 'SetTaskAssignment', 'GetTaskAssignment', 'InitializeFromProblem', 'CopyFromProblem', 'WrapUp', 'MakeTrajectory'):
        for f in P.find(ILQR + '::' + nm, inst=I62):
            en = R.run(None, fn=f, quiet=STATS + ('altro::SolverStats::Reset',), opaque=('BackwardPass', 'ForwardPass', 'UpdateExpansions', 'Rollout') if nm == 'Solve' else ())
            runs.append((nm, en))
    seen = {}
    for nm, en in runs:
        if rho is None:
            rho = ilqr_loc(R, en, 'GetRegularization')
        n0 = 0
        for e in reg_groups(R, en, rho):
            k, inb, why = reg_kind(R, en, e, rho)
            n0 += 1
            if k == 'reset':
                R.ob('reset to the configured initial value', not e.loops, e, 'the regularization is reset inside a loop')
                R.ob('reset only when a solve is set up', nm in ('Solve', 'SolveSetup', 'InitializeFromProblem', 'CopyFromProblem'), e, 'reset in %s' % nm)
                continue
            R.ob('adjusted value lies within [bp_reg_min, bp_reg_max]', inb, e, why)
            R.ob('adjusted by a proper increase or decrease', True if k in ('inc', 'dec') else (None if k is None else False), e, why + ' value %s' % show(e.val)[:200])
            R.ob('adjusted only in the backward and forward pass', nm in ('BackwardPass', 'ForwardPass'), e, 'adjusted in %s' % nm)
            seen.setdefault(nm, []).append((k, e, en))
        if nm == 'SolveSetup':
            v = en.final.read(rho)
            R.ob('a solve starts from the configured initial regularization', v is opt(R, en, 'bp_reg_initial'), en.root, 'regularization after setup: %s' % show(v)[:200])
    # directions
    en = backward(R)
    sw = [g for g in calls(en, 'CalcGains')]
    for k, e, en1 in seen.get('BackwardPass', []):
        inl = bool(e.loops)
        R.ob('raised inside the sweep, lowered after it', k == ('inc' if inl else 'dec') if k in ('inc', 'dec') else None, e, 'kind %s' % k)
    ends = [e for k, e, en1 in seen.get('BackwardPass', []) if not e.loops]
    R.ob('a completed backward pass lowers the regularization', bool(ends) and implies(ends[-1].st.pc, ends[-1].pc), ends[-1] if ends else en.root, 'no decrease after the sweep')
    for k, e, en1 in seen.get('ForwardPass', []):
        R.ob('a failed line search raises it', k == 'inc' if k in ('inc', 'dec') else None, e, 'kind %s' % k)
    R.ob('the regularization is adjusted in both passes', bool(seen.get('BackwardPass')) and bool(seen.get('ForwardPass')), runs[0][1].root, 'no adjustment found')
