"""Trajectories and knot points (C38)."""
from fractions import Fraction
from rulelib import *
from rules.kpf import *
from rules.ilqr import *
from rules.ilqr2 import *
from rules.al import *

TR = 'altro::Trajectory'
KNOT = 'altro::KnotPoint'
I6 = '<6, 2'
K_ = raw('obj', 'k')
A_ = [raw('obj', 'arg%d' % i) for i in range(6)]


def arg(i):
    return S0.read(A_[i])


def getter(R, q, this=THIS, args=(), inst=I6, n=None):
    """location behind a value getter"""
    en = Engine(R.P)
    f = R.P.fn(q, n, inst=inst)
    R.fns.add(f['key'])
    k, v, s = en.eval_fn(f, this, engine.State(), args)
    if k == 'loc':
        return v
    while v.op in ('i2f', 'f2i', 'cast') or v.op == 'app' and len(v.a) == 2 and str(v.a[0]).startswith('cast'):
        v = v.a[-1]
    return v.a[-1] if v.op == 'init' else None


def kpoint(R, k, this=THIS):
    return getter(R, TR + '::GetKnotPoint', this, (k,))


def kpindex(R, l, vec):
    """index of the knot point (element of vec) that contains location l, and the location relative to it"""
    x = l
    while isinstance(x, T) and x.op in ('fld', 'idx', 'blk'):
        if x.op == 'idx' and x.a[0] is vec:
            return x.a[1]
        x = x.a[0]
    return None


def covered(a, b, lo, hi, base):
    """the region [a, b) lies 'all' inside or outside ('none') the interval [lo, hi)"""
    le = lambda x, y: NOT(tobool(ilt(y, x)))
    if implies(base, AND(le(lo, a), le(b, hi)), TRUE):
        return 'all'
    if implies(base, OR(le(b, lo), le(hi, a)), TRUE):
        return 'none'
    return None


def after(R, en, name, writes, a, b, want, at, base, nf, what):
    """the element with any index K in [a, b) holds want(K) when the function returns; writes = [(event, index, value)]"""
    base0 = base
    for ev, ix, v in sorted(writes, key=lambda w: -w[0].seq):
        iv = interval(en, ev, ix)
        if iv is None:
            return R.ob(name, None, ev, 'range of %s unknown' % show(ix))
        c_ = covered(a, b, iv[0], iv[1], base)
        if c_ == 'none':
            continue
        if c_ is None:
            return R.ob(name, None, ev, 'writes [%s, %s)' % (show(iv[0]), show(iv[1])))
        if not always_all(en, ev):
            return R.ob(name, None if unresolved_pc(en, ev) else False, ev, '%s: skipped on some path' % what)
        L = innermost(en, ev, ix)
        if L is not None:
            m = (L.main or L.main_only)[0]
            off = isub(ix, m)
            if contains(off, lambda x: x is m):
                k2 = isub(iadd(ix, m), K_IDX)        # index = c - m
                v = subst(v, {m.id: k2})
            else:
                v = subst(v, {m.id: isub(K_IDX, off)})
        w = want(K_IDX)
        rng = AND(base, NOT(tobool(ilt(K_IDX, a))), tobool(ilt(K_IDX, b)))
        if idiff(a, iadd(b, c(-1))) == 0:
            v = subst(v, {K_IDX.id: a})
            w = want(a)
            rng = base
        vs = [(p, x) for p, x in cases(v) if sat(AND(rng, p))]
        ok = bool(vs) and all(nf.eq(x, w) for p, x in vs) or nf.eq(v, w)
        if not ok and unresolved(v):
            ok = None
        return R.ob(name, ok, ev, '%s: found %s, required %s' % (what, show(v)[:200], show(w)[:200]))
    return R.ob(name, False, at, '%s: never set' % what)


K_IDX = S0.read(K_)


def forall(R, en, name, lo, hi, hold, refute, what):
    """the function returns true exactly if the predicate holds for every index in [lo, hi).
    hold(pc-term, index) / refute: decide from a path condition whether the predicate is implied or refuted at that index."""
    key = en.root['key']
    rets = [e for e in en.events if e.kind == 'ret' and e.fkey == key and e.pc is not FALSE]
    inl = [e for e in rets if e.loops]
    out = [e for e in rets if not e.loops]
    if not rets:
        return R.ob(name, None, en.root, 'no return found')
    if not inl:
        R.sub(acc, en, name, out, lo, hi, hold, refute, what)
        return
    ok = True
    for e in inl:
        L = en.loops[e.loops[-1]]
        m = L.main or L.main_only
        if m is None or L.lo is None or len(e.loops) != 1:
            return R.ob(name, None, e, 'loop range unknown')
        if cv(tonum(e.val)) != 0 and e.val is not FALSE:
            return R.ob(name, False if cv(tonum(e.val)) is not None or e.val is TRUE else None, e, 'answers before all elements were looked at')
        d1, d2 = idiff(L.lo, lo), idiff(L.hi, hi)
        if d1 is None or d2 is None:
            return R.ob(name, None, e, 'looks at [%s, %s)' % (show(L.lo), show(L.hi)))
        # the predicate may be applied to a shifted index
        for off in (0, -1, 1):
            if d1 + off == 0 and d2 + off == 0:
                ix = iadd(m[0], c(off))
                break
        else:
            return R.ob(name, False, e, 'looks at the indices [%s, %s) instead of [%s, %s)' % (show(L.lo), show(L.hi), show(lo), show(hi)))
        r = refute(e.pc, ix)
        if r is not True:
            return R.ob(name, r, e, '%s: answers false although it may hold' % what)
        if L.back is None:
            return R.ob(name, None, e, '')
        h = hold(L.back.pc, ix)
        if h is not True:
            return R.ob(name, h, e, '%s: goes on although it does not hold' % what)
    for e in out:
        if not (cv(tonum(e.val)) == 1 or e.val is TRUE):
            ok = None if e.val is not FALSE and cv(tonum(e.val)) is None else False
            return R.ob(name, ok, e, '%s: answer after the loop is %s' % (what, show(e.val)[:100]))
    R.ob(name, ok if out else False, inl[0], what)


def tonum(v):
    return v if v is not None else UNDEF


def acc(R, en, name, out, lo, hi, hold, refute, what):
    R.ob(name, None, en.root, '%s: not decided by an early return' % what)


@rule('C38', 'symbolic transfer analysis of the trajectory and knot point operations, interval analysis of their index ranges')
def c38(R):
    P = R.P
    N = None
    st0 = engine.State()
    en0 = R.run(TR + '::NumSegments', inst=I6)
    N = en0.ret
    nf = NF(scalar=lambda t: True)
    vec = None
    k0 = kpoint(R, K_IDX)
    if k0 is not None and k0.op == 'idx':
        vec = k0.a[0]
    R.ob('knot point k is element k', k0 is not None and k0.op == 'idx' and idiff(k0.a[1], K_IDX) == 0, P.fn(TR + '::GetKnotPoint', inst=I6), show(k0))
    if vec is None or k0.op != 'idx':
        return
    size = S0.read(fld(vec, '#size'))
    R.ob('one knot point more than segments', idiff(size, N) == 1, en0.root, 'NumSegments() = %s with %s knot points' % (show(N), show(size)))
    parts = {}
    for nm, q in (('State', '::State'), ('Control', '::Control'), ('Time', '::GetTime'), ('Step', '::GetStep')):
        parts[nm] = getter(R, KNOT + q, k0)
        R.ob('knot point parts are stored', parts[nm] is not None and under(parts[nm], k0), P.fn(KNOT + q, inst=I6), nm)
    ids = [p for p in parts.values() if p is not None]
    R.ob('knot point parts are distinct', len(set(ids)) == 4, P.fn(KNOT + '::State', inst=I6), str([show(p) for p in ids]))
    if None in parts.values():
        return
    # accessors, both overloads
    for nm in ('State', 'Control'):
        for f in P.find(KNOT + '::' + nm, 0, inst=I6):
            en = Engine(P); k, v, s = en.eval_fn(f, k0, engine.State(), ()); R.fns.add(f['key'])
            R.ob('accessors refer to the part they name', k == 'loc' and v is parts[nm], f, '%s refers to %s' % (f['q'], show(v)))
        for f in P.find(TR + '::' + nm, 1, inst=I6):
            en = Engine(P); k, v, s = en.eval_fn(f, THIS, engine.State(), (K_IDX,)); R.fns.add(f['key'])
            R.ob('accessors refer to the knot point asked for', k == 'loc' and v is parts[nm], f, '%s(k) refers to %s' % (f['q'], show(v)))
    for q in ('GetKnotPoint', 'operator[]'):
        for f in P.find(TR + '::' + q, 1, inst=I6):
            en = Engine(P); k, v, s = en.eval_fn(f, THIS, engine.State(), (K_IDX,)); R.fns.add(f['key'])
            R.ob('accessors refer to the knot point asked for', k == 'loc' and v is k0, f, '%s(k) refers to %s' % (f['q'], show(v)))
    for nm, q in (('Time', 'GetTime'), ('Step', 'GetStep')):
        R.ob('accessors refer to the knot point asked for', getter(R, TR + '::' + q, THIS, (K_IDX,)) is parts[nm], P.fn(TR + '::' + q, inst=I6), q)
    for q in ('StateDimension', 'ControlDimension'):
        a = R.val(en0, TR + '::' + q, st=st0, args=(K_IDX,), inst=I6)
        b = R.val(en0, KNOT + '::' + q, this=k0, st=st0, inst=I6) if P.find(KNOT + '::' + q, inst=I6) else R.val(en0, 'altro::StateControlSized::' + q, this=k0, st=st0, inst=I6)
        R.ob('accessors refer to the knot point asked for', a is b, P.fn(TR + '::' + q, inst=I6), '%s(k) = %s' % (q, show(a)))
    for q, ix in (('begin', ZERO), ('end', size)):
        for f in P.find(TR + '::' + q, 0, inst=I6):
            en = R.run(None, fn=f)
            v = en.ret
            R.ob('iteration covers all knot points', v is not None and v.op == 'addr' and v.a[0].op == 'idx' and v.a[0].a[0] is vec and idiff(v.a[0].a[1], ix) == 0 or (None if v is None or unresolved(v) else False), f, show(v) if v is not None else '')
    # setters
    me = lambda p: subst(p, {k0.id: THIS})
    mine = {nm: getter(R, KNOT + q, THIS) for nm, q in (('State', '::State'), ('Control', '::Control'), ('Time', '::GetTime'), ('Step', '::GetStep'))}

    def setter(q, cls, nm, vals, args, loc):
        en = R.run(cls + '::' + q, inst=I6)
        for p, l in loc.items():
            want = vals.get(p, S0.read(l))
            R.eqv('setters change exactly their part', nf, en.final.read(l), want, en.root, '%s leaves %s' % (q, p))
    x0 = arg(0)
    setter('SetTime', KNOT, 'Time', {'Time': x0}, 1, mine)
    setter('SetStep', KNOT, 'Step', {'Step': x0}, 1, mine)
    for q, p in (('SetTime', 'Time'), ('SetStep', 'Step')):
        en = R.run(TR + '::' + q, inst=I6)
        kp = kpoint(R, arg(0))
        l = {nm: getter(R, KNOT + g, kp) for nm, g in (('State', '::State'), ('Control', '::Control'), ('Time', '::GetTime'), ('Step', '::GetStep'))}
        for nm in l:
            R.eqv('setters change exactly their part', nf, en.final.read(l[nm]), arg(1) if nm == p else S0.read(l[nm]), en.root, '%s leaves %s of the knot point' % (q, nm))
        other = [e for e in en.events if e.kind == 'store' and e.loc is not None and under(e.loc, THIS) and not under(e.loc, kp)]
        R.ob('setters change exactly their part', not other, other[0] if other else en.root, 'another knot point is written')
    # terminal knot points
    en = R.run(KNOT + '::IsTerminal', inst=I6)
    h = S0.read(mine['Step'])
    ok = None
    if en.ret is not None:
        sg = bysign(ite(tobool(en.ret), ONE, ZERO), h)
        got = [cv(sg[k]) if sg[k] is not None else None for k in (-1, 0, 1)]
        if None not in got:
            ok = got == [0, 1, 0]
        else:
            ok = None if unresolved(en.ret) or any(a.op == 'app' for a in atoms(tobool(en.ret))) else False
    R.ob('a knot point is terminal exactly if its step is zero', ok, en.root, show(en.ret) if en.ret is not None else '')
    en = R.run(KNOT + '::SetTerminal', inst=I6)
    R.eqv('a terminal knot point has step zero', nf, en.final.read(mine['Step']), ZERO, en.root, 'step')
    R.ob('a terminal knot point has a zero control', zerov(en.final.read(mine['Control'])), en.root, show(en.final.read(mine['Control']))[:100])
    for p in ('State', 'Time'):
        R.eqv('a terminal knot point keeps its state and time', nf, en.final.read(mine[p]), S0.read(mine[p]), en.root, p)
    # [x; u]
    if P.find(KNOT + '::GetStateControl', inst=I6):
        en = R.run(KNOT + '::GetStateControl', inst=I6)
        x, u = S0.read(mine['State']), S0.read(mine['Control'])
        R.sub(stacked, en, x, u)
    # construction
    f = [f for f in P.find(KNOT + '::KnotPoint', 4, inst=I6)]
    for f in f:
        en = R.run(None, fn=f)
        for i, p in enumerate(('State', 'Control', 'Time', 'Step')):
            R.eqv('a knot point is built from the given values', nf, en.final.read(mine[p]), arg(i), f, p)
    for f in P.find(TR + '::Trajectory', None, inst=I6):
        R.sub(build, f, vec, parts, k0, nf)
    R.sub(uniform, N, vec, k0, parts, nf)
    R.sub(consistency, N, parts, k0, nf)
    # SetZero
    if P.find(TR + '::SetZero', inst=I6):
        en = R.run(TR + '::SetZero', inst=I6)
        for p in ('State', 'Control'):
            ws = wr_at(en, vec, parts[p], k0)
            bad = [w for w in ws if zerov(w[2]) is not True]
            R.ob('all states and controls become zero', not bad or (None if zerov(bad[0][2]) is None else False), bad[0][0] if bad else en.root, p)
            R.sub(covers, en, 'every knot point is reset', [(w[0], ((w[1], ZERO, size),)) for w in ws], None, en.root, what=p)
        for p in ('Time', 'Step'):
            ws = wr_at(en, vec, parts[p], k0)
            R.ob('resetting keeps the times', not ws, ws[0][0] if ws else en.root, p)


def eqf(h):
    return eq(h, ZERO)


def zerov(v):
    if v.op == 'app' and v.a[0] == 'Zero' or cv(v) == 0:
        return True
    if v.op == 'app' and v.a[0] == 'Const':
        return cv(v.a[1]) == 0
    try:
        if NF().eq(v, ZERO):
            return True
    except Exception:
        pass
    if v.op == '*' and any(cv(x) == 0 for x in v.a):
        return True
    return None if unresolved(v) else False


def stacked(R, en, x, u):
    v = en.ret
    name = 'the stacked vector is the state followed by the control'
    if v is None:
        return R.ob(name, None, en.root, '')
    flat = []

    def go(t):
        if t.op in ('tup', 'vcat', 'comma') or t.op == 'app' and t.a[0] in ('comma', 'vcat', 'tup', 'ctor:Eigen::Matrix'):
            for y in (t.a if t.op != 'app' else t.a[1:]):
                if isinstance(y, T):
                    go(y)
        else:
            flat.append(t)
    go(v)
    if flat == [x, u]:
        return R.ob(name, True, en.root, '')
    has = [t for t in flat if t is x or t is u]
    R.ob(name, False if has and has != [x, u] and len(flat) == len(has) else None, en.root, show(v)[:200])


def wr_at(en, vec, part, k0):
    """writes to one part of any knot point: (event, index, value)"""
    out = []
    for e in en.events:
        if e.kind != 'store' or e.loc is None:
            continue
        ix = kpindex(None, e.loc, vec)
        if ix is None:
            continue
        if e.loc is subst(part, {k0.id: idx(vec, ix)}):
            out.append((e, ix, e.val))
        elif e.loc.op == 'idx' and e.loc.a[0] is vec:
            out.append((e, ix, engine_sel(e.val, part, k0)))
    return out


def engine_sel(v, part, k0):
    """the part of a whole knot point value"""
    stt = engine.State()
    l = raw('obj', 'tmpkp')
    stt.write(l, v)
    return stt.read(subst(part, {k0.id: l}))


def build(R, f, vec, parts, k0, nf):
    ps = f['ps']
    ts = [f['T'][p['t']].get('s', '') for p in ps]
    if len(ps) == 1 and 'vector' not in ts[0] and f['T'][ps[0]['t']].get('k') == 'int':
        en = R.run(None, fn=f)
        R.ob('N segments have N+1 knot points', idiff(en.final.read(fld(vec, '#size')), iadd(arg(0), ONE)) == 0, f, show(en.final.read(fld(vec, '#size'))))
    elif len(ps) == 3 and all(f['T'][p['t']].get('k') == 'int' for p in ps):
        en = R.run(None, fn=f)
        R.ob('N segments have N+1 knot points', idiff(en.final.read(fld(vec, '#size')), iadd(arg(2), ONE)) == 0, f, show(en.final.read(fld(vec, '#size'))))
    elif len(ps) == 1 and 'KnotPoint' in ts[0] and 'std::vector' in ts[0]:
        en = R.run(None, fn=f)
        R.ob('a trajectory is built from the given knot points', en.final.read(vec) is arg(0) or (None if unresolved(en.final.read(vec)) else False), f, show(en.final.read(vec))[:100])
    elif len(ps) == 3 and 'std::vector' in ts[0] and 'std::vector' in ts[1]:
        en = R.run(None, fn=f)
        X, U, Tm = A_[:3]
        n = S0.read(fld(U, '#size'))
        el = lambda v, k: S0.read(idx(v, k))
        base = AND(NOT(tobool(ilt(n, ONE))), assumed(en))
        sz = en.final.read(fld(vec, '#size'))
        R.ob('N controls make N+1 knot points', idiff(restrict_nonneg(sz, n), iadd(n, ONE)) == 0 or (None if unresolved(sz) else False), f, '%s knot points' % show(sz)[:200])
        ws = []
        for e in en.events:
            if e.kind == 'store' and e.loc is not None and kpindex(None, e.loc, vec) is not None and e.loc.op == 'idx' and e.val is not None:
                ws.append(e)
        for p, (i, src) in {'State': (0, X), 'Control': (1, U), 'Time': (2, Tm), 'Step': (3, None)}.items():
            w = []
            for e in ws:
                ix = kpindex(None, e.loc, vec)
                # the engine numbers pushed elements; the position in the sequence is the loop counter or the current size
                w.append((e, restrict_nonneg(ix, n), kp_arg(e.val, i, parts, k0, p)))
            if any(x[2] is None for x in w):
                R.ob('knot points take the given values', None, f, p)
                continue
            if p == 'Step':
                R.sub(after, en, 'a step is the difference of consecutive times', w, ZERO, n, lambda k: fsub(el(Tm, iadd(k, ONE)), el(Tm, k)), f, base, nf, 'step k')
                R.sub(after, en, 'the terminal knot point has step zero', w, n, iadd(n, ONE), lambda k: ZERO, f, base, nf, 'step N')
            elif p == 'Control':
                R.sub(after, en, 'knot points take the given values', w, ZERO, n, lambda k: el(U, k), f, base, nf, 'control k')
                last = [x for x in w if not x[0].loops]
                if last:
                    R.ob('the terminal knot point has a zero control', zerov(last[-1][2]), last[-1][0], show(last[-1][2])[:100])
            else:
                R.sub(after, en, 'knot points take the given values', w, ZERO, n, lambda k: el(src, k), f, base, nf, p + ' k')
                R.sub(after, en, 'knot points take the given values', w, n, iadd(n, ONE), lambda k: el(src, k), f, base, nf, p + ' N')


def restrict_nonneg(t, n):
    """value of t given n >= 1"""
    return restrict(t, NOT(tobool(ilt(n, ONE))))


def kp_arg(v, i, parts, k0, p):
    if v.op == 'tup' and len(v.a) == 4:
        return v.a[i]
    if v.op == 'agg':
        return engine_sel(v, parts[p], k0)
    return None


def fsub(a, b):
    return tm.sub(a, b) if hasattr(tm, 'sub') else raw('-', a, b)


def uniform(R, N, vec, k0, parts, nf):
    en = R.run(TR + '::SetUniformStep', inst=I6)
    h = arg(0)
    base = NOT(tobool(ilt(N, ONE)))
    st = wr_at(en, vec, parts['Step'], k0)
    ti = wr_at(en, vec, parts['Time'], k0)
    R.sub(after, en, 'every interval has the uniform step', st, ZERO, N, lambda k: h, en.root, base, nf, 'step of knot point k')
    R.sub(after, en, 'the terminal knot point has step zero', st, N, iadd(N, ONE), lambda k: ZERO, en.root, base, nf, 'step of the terminal knot point')
    R.sub(after, en, 'knot point k is at time k*h', ti, ZERO, N, lambda k: raw('*', k, h), en.root, base, nf, 'time of knot point k')
    R.sub(after, en, 'knot point k is at time k*h', ti, N, iadd(N, ONE), lambda k: raw('*', k, h), en.root, base, nf, 'final time')
    for p in ('State', 'Control'):
        ws = wr_at(en, vec, parts[p], k0)
        R.ob('a uniform step changes only times', not ws, ws[0][0] if ws else en.root, p)


def point(t, env):
    """value of a real expression or comparison under an assignment of its leaves"""
    if t.id in env:
        return env[t.id]
    k = cv(t)
    if k is not None:
        return k
    o = t.op
    if o == 'lin':
        r = t.a[1]
        for x, q in t.a[0]:
            v = point(x, env)
            if v is None:
                return None
            r = r + q * v
        return r
    if o in ('+', '-', '*', '/', 'flt', 'fle', 'neg') or o == 'app' and t.a[0] in ('abs', 'fabs', 'std::abs', 'fmax', 'fmin', 'max', 'min', 'std.max', 'std.min') or o == 'abs':
        vs = [point(x, env) for x in t.a if isinstance(x, T)]
        if any(v is None for v in vs) or o == '/' and vs[1] == 0:
            return None
        if o == 'neg':
            return -vs[0]
        if o == 'abs' or o == 'app' and 'abs' in t.a[0]:
            return abs(vs[-1])
        if o == 'app':
            return max(vs) if 'max' in t.a[0] else min(vs)
        a, b = vs
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, 'flt': lambda: a < b, 'fle': lambda: a <= b}[o]()
    return None


def consistency(R, N, parts, k0, nf):
    q = TR + '::CheckTimeConsistency'
    if not R.P.find(q, inst=I6):
        return
    en = R.run(q, inst=I6, quiet=['std::operator<<'])
    eps = arg(0)
    at_ = lambda p, k: S0.read(subst(parts[p], {k0.id: idx(k0.a[0], k)}))

    def lit(pc, ix, want_true):
        """decide |h_k - (t_{k+1}-t_k)| <= eps from the comparisons of pc, evaluated on both sides of every boundary"""
        cmp_ = [a for a in atoms(pc) if a.op in ('flt', 'fle', 'unk')]
        if not cmp_:
            return False
        h, t0, t1 = at_('Step', ix), at_('Time', ix), at_('Time', iadd(ix, ONE))
        for base in (0, 3):
            for d in (-2, -1, Fraction(-1, 2), 0, Fraction(1, 2), 1, 2):
                env = {h.id: base + 5 + d, t0.id: Fraction(base), t1.id: Fraction(2 * base + 5), eps.id: Fraction(1)}
                env[h.id] = Fraction(base + 5 + d)
                sub = {}
                for a in cmp_:
                    v = point(a, env)
                    if v is None:
                        return None
                    sub[a.id] = v
                # the comparisons as they come out at this point
                here = AND(pc, *[mk(a, TRUE, FALSE) if sub[a.id] else NOT(mk(a, TRUE, FALSE)) for a in cmp_])
                if sat(here) and (abs(d) <= 1) != want_true:
                    return False
        return True
    R.sub(forall, en, 'times are consistent exactly if every step matches', ZERO, N, lambda pc, ix: lit(pc, ix, True), lambda pc, ix: lit(pc, ix, False), 'step matches')
