"""Augmented cost terms, their sum over constraints, cones, violation and problem construction (C19 - C23)."""
from rulelib import *
from rules.kpf import *
from rules.ilqr import *
from rules.ilqr2 import *
from rules.al import *

X_, U_ = raw('obj', 'arg0'), raw('obj', 'arg1')


def allrows(t):
    """the term is the number of rows of the constraint (its output dimension)"""
    return t.op == 'app' and 'OutputDimension' in str(t.a[0]) or contains(t, lambda x: x.op == 'app' and x.a[0] == 'V:OutputDimension') or t.op in ('init',) and t.a[-1].op == 'fld' and t.a[-1].a[1] == '#rows'


def sel_columns(t, base, mark):
    """rewrite column blocks of products down to column blocks of the matrix `base`, as mark(first column, count)"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == 'sel' and x.a[1][0] == 'b' and len(x.a[1]) == 5:
            _, r0, c0, nr, nc = x.a[1]
            r = push(x.a[0], r0, c0, nr, nc) or x
        elif x.op in ('+', '-', '*', 'neg', '/'):
            r = raw(x.op, *[go(y) for y in x.a])
        elif x.op == 'app' and x.a[0] in ('transpose', 'E.squaredNorm', 'E.dot', 'E.eval', 'E.noalias'):
            r = app(x.a[0], *[go(y) if isinstance(y, tm.T) else y for y in x.a[1:]])
            if x.a[0] in ('E.eval', 'E.noalias'):
                r = r.a[1]
        else:
            r = x
        memo[x.id] = r
        return r

    def push(m, r0, c0, nr, nc):
        if m is base:
            if r0 is ZERO and allrows(nr):
                return mark(c0, nc)
            return None
        if m.op == '*' and r0 is ZERO and allrows(nr):
            a, b = m.a
            if nfscalar(a):
                y = push(b, r0, c0, nr, nc)
                return raw('*', a, y) if y is not None else None
            y = push(b, ZERO, c0, nr, nc)
            return raw('*', go(a), y) if y is not None else None
        if m.op == 'neg':
            y = push(m.a[0], r0, c0, nr, nc)
            return raw('neg', y) if y is not None else None
        if m.op in ('+', '-'):
            y, z = push(m.a[0], r0, c0, nr, nc), push(m.a[1], r0, c0, nr, nc)
            return raw(m.op, y, z) if y is not None and z is not None else None
        return None
    return map1(go, t) if t.op == 'ite' else go(t)


def nfscalar(t):
    return NF().scalar(t)


def auglag(R, kind, name):
    """(engine, evaluate event, jacobian event, projection events, cone Jacobian events)"""
    en = cvrun(R, name, kind, opaque=CONEFNS)
    if en is None:
        raise Removed('augmented Lagrangian terms', 'ConstraintValues::%s is gone' % name, None)
    return en


def conecalls(en, which):
    return [e for e in calls(en) if facts.strip_targs(e.fn['q']) in CONEFNS and e.fn['q'].endswith('::' + which)]


def coneclass(e):
    return facts.strip_targs(e.fn['q']).split('::')[-2]


@rule('C19', 'symbolic matrix normal form of value, gradient and Hessian terms against one specification; provenance and write analysis of the work buffers')
def c19(R):
    P_, D_, Cx, Cu = (raw('obj', s_, s_) for s_ in ('@P', '@D', '@Cx', '@Cu'))
    nloc = None
    ctor = {}
    for kind in ('eq', 'ineq'):
        for name in ('AugLag', 'AugLagGradient', 'AugLagHessian'):
            en = auglag(R, kind, name)
            lam, pen, cc = (cvloc(R, en, g, kind) for g in ('GetDuals', 'GetPenalty', 'GetConstraintValue'))
            con = R.val(en, CV + '::GetConstraint', st=S0, inst=KIND[kind])
            rho = S0.read(idx(pen, ZERO))
            cval = lambda o: None
            outs = [t for t in {x for e in en.events for a in (e.args or ()) if a[1] is not None for x in walk(a[1])} if t.op == 'out']
            lamv = S0.read(lam)
            pair = (S0.read(X_), S0.read(U_))

            def right(t, what):
                """out term of the constraint at the given state and control"""
                return t.op == 'out' and what in str(t.a[0]) and t.a[2] is con and tuple(t.a[3]) == pair
            # cone calls: class and argument
            pr, jc = conecalls(en, 'Projection'), conecalls(en, 'Jacobian')
            cref = [x for x in terms_of(en) if right(x, 'Evaluate')]
            jref = [x for x in terms_of(en) if right(x, 'Jacobian')]
            sub = {}
            label = '%s of %s constraints' % ({'AugLag': 'value', 'AugLagGradient': 'gradient', 'AugLagHessian': 'Hessian'}[name], NAMES[kind])
            for e in pr + jc:
                used = any(contains(v, lambda x: x.op == 'hv' and x.a[0] == e.id) for v in results(en, name))
                if not used:
                    continue
                R.ob('the %s uses the dual cone' % label, coneclass(e) == DUAL[kind], e, 'uses %s' % coneclass(e))
                got = e.args[0][1]
                want = raw('-', lamv, raw('*', rho, cref[0])) if cref else None
                nf = NF()
                ok = want is not None and nf.eq(got, want)
                R.ob('the %s projects multiplier minus penalty times constraint value' % label, True if ok else (None if unres2(got) else False), e, 'argument %s' % show(got)[:300])
                sub[raw('hv', e.id, e.args[1][0]).id] = P_ if e in pr else D_
            vals = results(en, name)
            if not (pr or jc):
                R.ob('the %s uses the dual cone' % label, None, en.root, 'no cone function is called')
                continue
            if jref:
                J = jref[0]
                n_, m_ = c(6), c(2)

                def mark(c0, nc):
                    c0, nc = dims(c0), dims(nc)
                    if c0 is ZERO and nc is n_:
                        return Cx
                    if c0 is n_ and nc is m_:
                        return Cu
                    return None
                vals = [sel_columns(subst(v, sub), J, mark) for v in vals]
            else:
                vals = [subst(v, sub) for v in vals]
            tr = lambda x: app('transpose', x)
            mul = lambda *a: a[0] if len(a) == 1 else raw('*', a[0], mul(*a[1:]))
            nf = NF(scalar=lambda t: True if t is rho else (False if t in (P_, D_, Cx, Cu) else None))
            if name == 'AugLag':
                want = [raw('/', raw('-', app('E.squaredNorm', P_), app('E.squaredNorm', lamv)), raw('*', c(2), rho))]
                lab = ['value']
            elif name == 'AugLagGradient':
                want = [raw('neg', mul(tr(raw('*', D_, Cx)), P_)), raw('neg', mul(tr(raw('*', D_, Cu)), P_))]
                lab = ['state gradient', 'control gradient']
            else:
                dx, du = raw('*', D_, Cx), raw('*', D_, Cu)
                want = [mul(rho, tr(dx), dx), mul(rho, tr(dx), du), mul(rho, tr(du), du)]
                lab = ['state block', 'mixed block', 'control block']
            for v, w, l in zip(vals, want, lab):
                ok = nf.eq(v, w)
                R.ob('the %s: %s' % (label, l), True if ok else (None if unres2(v) else False), en.root, 'found %s, required %s' % (show(v)[:500], show(w)[:300]))
            # work buffers
            for e in [e for e in calls(en) if e.name == 'Jacobian' and (e in jc or e.extra == 'virtual')]:
                l, v = e.args[-1][:2]
                if l is None or contains(v, lambda x: x.op == 'app' and x.a[0] == 'Zero'):
                    continue
                if v.op == 'init' and v.a[0] is l and under(l, THIS):
                    R.sub(buffer, kind, l, e, label, ctor)
                elif v.op in ('out', 'hv'):
                    continue
                else:
                    R.ob('the Jacobian buffer of the %s starts from zero' % label, None if unres2(v) or v.op == 'init' else False, e, 'buffer holds %s' % show(v)[:200])


def dims(t):
    t = subst(t, {x.id: y for x in walk(t) if x.op == 'init' and x.a[-1].op == 'fld' for n, y in (('n_', c(6)), ('m_', c(2))) if x.a[-1].a[1] == n and x.a[-1].a[0] is THIS})
    return c(cv(t)) if cv(t) is not None else t


def terms_of(en):
    seen = set()
    for e in en.events:
        for a in (e.args or ()):
            if a[1] is not None:
                seen |= set(walk(a[1]))
        if e.val is not None and isinstance(e.val, tm.T):
            seen |= set(walk(e.val))
    for v in [en.ret] if isinstance(en.ret, tm.T) else []:
        seen |= set(walk(v))
    return sorted(seen, key=lambda t: t.id)


def results(en, name):
    if name == 'AugLag':
        return [en.ret]
    return [en.final.read(raw('obj', 'arg%d' % i)) for i in ((2, 3) if name == 'AugLagGradient' else (2, 3, 4))]


def unres2(v):
    return contains(v, lambda x: x.op in ('mu', 'undef', 'unk', 'pat'))


def buffer(R, kind, l, e, label, ctor):
    """field l, filled in place by Jacobian functions that define only their own entries, is zero at construction and
    written by such functions only"""
    key = (kind, l)
    if key in ctor:
        return
    ctor[key] = 1
    en0 = cvctor(R, kind)
    if en0 is not None:
        v = en0.final.read(l)
        z = v.op == 'app' and v.a[0] == 'Zero'
        R.ob('the Jacobian buffers of %s constraints start from zero' % NAMES[kind], True if z else (None if unresolved(v) else False), en0.root, 'after construction: %s' % show(v)[:200])
    f0 = facts.strip_targs(e.fn['q'])
    for n in QUERIES + ('UpdateDuals', 'UpdatePenalties', 'ResetDualVariables', 'SetPenalty'):
        en = cvrun(R, n, kind, opaque=CONEFNS)
        if en is None:
            continue
        for l2, g, how in par_writes(en):
            for x in ([l2] if l2.op != 'ite' else [y for _, y in cases(l2)]):
                if under(x, l) or under(l, x):
                    ok = g.kind == 'call' and g.name == 'Jacobian' and (g.extra == 'virtual') == (e.extra == 'virtual') and (g.extra == 'virtual' or coneclass(g) == coneclass(e))
                    z = g.kind == 'store' and g.val is not None and g.val.op == 'app' and g.val.a[0] == 'Zero'
                    R.ob('the Jacobian buffers of %s constraints are written by the Jacobian only' % NAMES[kind], ok or z or None if how == 'call' and not ok else (ok or z), g, 'written in %s' % n)


# ---------------------------------------------------------------- sums and maxima built up in loops
CVALL = tuple(CV + '::' + n for n in ('AugLag', 'AugLagGradient', 'AugLagHessian', 'UpdateDuals', 'UpdatePenalties', 'MaxViolation', 'MaxPenalty',
                                      'ResetDualVariables', 'GetConstraintInfo', 'OutputDimension', 'GetViolation'))
ACALL = tuple(AC + '::' + n for n in ('NumConstraints', 'UpdateDuals', 'UpdatePenalties', 'MaxViolation', 'MaxPenalty', 'ResetDualVariables', 'GetConstraintInfo'))


def flat(t, k=1):
    """[(coefficient, term)] of a sum"""
    if t.op == '+':
        return flat(t.a[0], k) + flat(t.a[1], k)
    if t.op == '-':
        return flat(t.a[0], k) + flat(t.a[1], -k)
    if t.op == 'neg':
        return flat(t.a[0], -k)
    if t.op == 'lin':
        return [(k * q, x) for x, q in t.a[0]] + ([(k * t.a[1], ONE)] if t.a[1] else [])
    if cv(t) is not None and t.op == 'c':
        return [(k * cv(t), ONE)] if cv(t) != 0 else []
    if t.op == 'app' and t.a[0] == 'Zero':
        return []
    return [(k, t)]


def summands(en, v, loops=(), stop=()):
    """[(coefficient, term, enclosing loops)] of a value accumulated over loops; None when not understood"""
    out = []
    for k, t in flat(v):
        if t in stop:
            out.append((k, t, loops))
        elif t.op == 'mu' and t.a[0] in en.loops:
            L = en.loops[t.a[0]]
            if L.back is None or L.s0 is None:
                return None
            p = t.a[-1]
            b = L.back.read(p)
            inner = summands(en, b, loops + (L.key,), stop + (t,)) if b.op != 'ite' else None
            if inner is None:
                return None
            self_ = [x for x in inner if x[1] is t]
            if len(self_) != 1 or self_[0][0] != 1:
                return None
            rest = [x for x in inner if x[1] is not t]
            if any(contains(x[1], lambda y: y is t) for x in rest):
                return None
            base = summands(en, L.s0.read(p), loops, stop)
            if base is None:
                return None
            out += [(k * q, x, lp) for q, x, lp in base + rest]
        elif t.op == 'ite':
            return None
        else:
            out.append((k, t, loops))
    return out


def partial(en, v):
    """why v adds some terms in some iterations only (on resolved conditions); None when it does not or cannot be told"""
    for k, t in flat(v):
        if t.op != 'mu' or t.a[0] not in en.loops:
            continue
        L = en.loops[t.a[0]]
        if L.back is None or L.s0 is None:
            return None
        cs = cases(L.back.read(t.a[-1]))
        sigs = []
        for q, x in cs:
            ss = flat(x)
            self_ = [1 for kk, y in ss if y is t and kk == 1]
            es = [(kk, callof(en, y)) for kk, y in ss if y is not t]
            if len(self_) != 1 or any(e[0] is None for _, e in es):
                return None
            if contains(q, lambda y: y.op in ('ret', 'hv', 'undef', 'unk', 'pat')):
                return None
            sigs.append((frozenset((kk, e[0].fn['q'] if e[0].fn else e[0].name, e[0].recv, e[1]) for kk, e in es), q))
        for i, (a, p) in enumerate(sigs):
            for b, q in sigs[:i]:
                if a != b:
                    return 'terms differ: under %s and under %s' % (show(p)[:80], show(q)[:80])
        r = partial(en, L.s0.read(t.a[-1]))
        if r:
            return r
    return None


def infnorm(v):
    return v.a[1] == '-1' or isinstance(v.a[1], tm.T) and show(v.a[1]).strip("'") == '-1'


def maxima(en, v, loops=()):
    """[(term, enclosing loops)] whose maximum v is (absolute values, for values that are never negative)"""
    if v.op == 'ite':
        cs = cases(v)
        ls = [x for _, x in cs]
        if len(set(ls)) != 2 or len(cs) != 2:
            return None
        (p, a), (q, b) = cs
        gt = lambda x, y: (equiv(p, tobool(flt(y, x))) or equiv(p, tobool(fle(y, x))))
        if not gt(a, b):
            return None
        x, y = maxima(en, a, loops), maxima(en, b, loops)
        return None if x is None or y is None else x + [z for z in y if z not in x]
    if v.op == 'c':
        return [] if cv(v) is not None and cv(v) <= 0 else None
    if v.op == 'app' and v.a[0] in ('lpNorm',) and infnorm(v) or v.op == 'app' and v.a[0] == 'E.maxCoeff':
        return maxima(en, v.a[-1], loops)
    if v.op == 'tup' or v.op == 'app' and v.a[0] in ('tup', 'vec'):
        out = []
        for y in (v.a if v.op == 'tup' else v.a[1:]):
            x = maxima(en, y, loops)
            if x is None:
                return None
            out += x
        return out
    if v.op in ('app', ) and v.a[0] in ('fmax', 'std.max', 'max') and len(v.a) == 3:
        x, y = maxima(en, v.a[1], loops), maxima(en, v.a[2], loops)
        return None if x is None or y is None else x + y
    if v.op == 'mu' and v.a[0] in en.loops:
        L = en.loops[v.a[0]]
        p = v.a[-1]
        st = [e for e in en.events if e.kind == 'store' and L.key in e.loops and e.loc is not None and e.loc.op == 'idx' and e.loc.a[0] is p]
        if st:                      # a buffer filled entry by entry: every entry counts
            out = []
            for e in st:
                x = maxima(en, e.val, tuple(e.loops))
                if x is None:
                    return None
                out += [(t, lp if lp is not None else e.loops) for t, lp in x]
            return out + [('buffer', p, L.key)]
        b = L.back.read(p) if L.back is not None else None
        if b is None:
            return None
        cs = cases(b) if b.op == 'ite' else [(TRUE, b)]
        inner = maxima2(en, b, v, loops + (L.key,))
        base = maxima(en, L.s0.read(p), loops)
        return None if inner is None or base is None else base + inner
    if v.op == 'agg' or unresolved(v) and v.op in ('mu', 'undef', 'unk'):
        return None
    return [(v, loops)]


def maxima2(en, b, self_, loops):
    if b is self_:
        return []
    if b.op == 'ite':
        cs = cases(b)
        if len(cs) != 2:
            return None
        (p, a), (q, c_) = cs
        gt = equiv(p, tobool(flt(c_, a))) or equiv(p, tobool(fle(c_, a)))
        if not gt:
            return None
        x, y = maxima2(en, a, self_, loops), maxima2(en, c_, self_, loops)
        return None if x is None or y is None else x + [z for z in y if z not in x]
    if b.op == 'app' and b.a[0] in ('fmax', 'std.max', 'max') and len(b.a) == 3:
        x, y = maxima2(en, b.a[1], self_, loops), maxima2(en, b.a[2], self_, loops)
        return None if x is None or y is None else x + y
    if contains(b, lambda t: t is self_):
        return None
    return maxima(en, b, loops)


def lastonly(en, v, g):
    """the value uses one call in a loop, whatever the earlier iterations gave"""
    for x in walk(v):
        e, w = callof(en, x) if x.op in ('ret', 'hv') else (None, None)
        if e is not None and e.name == g and e.loops and w == 'ret':
            if not contains(v, lambda t: t.op == 'mu' and t.a[0] in e.loops or t.op in ('undef', 'unk', 'pat')):
                return True
    return False


def stale(en):
    """an entry of a buffer is combined with what an earlier call left there"""
    for e in en.events:
        if e.kind == 'store' and e.loops and e.loc is not None and e.loc.op == 'idx' and e.st is not None:
            b = e.loc.a[0]
            s0 = en.loops[e.loops[0]].s0
            old = e.st.read(e.loc)
            if s0 is not None and s0.read(b) is S0.read(b) and old is not None and contains(e.val, lambda t: t is old):
                return e
    return None


def callof(en, t):
    """(event, output position or 'ret') a value comes from"""
    if t.op in ('ret', 'hv') :
        for e in en.events:
            if e.id == t.a[0] and e.kind == 'call':
                if t.op == 'ret':
                    return e, 'ret'
                for n, a in enumerate(e.args):
                    if a[0] is t.a[-1]:
                        return e, n
                return e, None
    if t.op == 'out' or t.op == 'app' and str(t.a[0]).startswith('V:'):
        want = str(t.a[0]).split(':')[-1]
        for e in en.events:
            if e.kind == 'call' and e.extra == 'virtual' and e.name == want:
                pt = t.a[2] if t.op == 'out' else t.a[1]
                if e.recv is not None and (e.recv is deref(pt) or engine._deref_t(pt) is e.recv):
                    return e, t.a[1] if t.op == 'out' else 'ret'
    return None, None


def acmember(R, en, l):
    """(kind, i) of a constraint of the augmented cost `this`"""
    m = member(R, en, l)
    return (m[0], m[1]) if m is not None and m[2] is THIS else None


def byvisit(R, en, evs):
    """parts for covers() of the events whose receiver is a constraint of this augmented cost"""
    out = {'eq': [], 'ineq': []}
    for e in evs:
        for x in ([e.recv] if e.recv.op != 'ite' else [y for _, y in cases(e.recv)]):
            m = acmember(R, en, x)
            if m is not None:
                out[m[0]].append((e, ((m[1], ZERO, nsize(vecs(R, en, THIS)[m[0]])),)))
    return out


def acfn(R, n, **kw):
    fs = [f for f in R.P.find(AC + '::' + n, inst=I62)]
    if not fs:
        raise Removed('the augmented cost provides ' + n, 'ALCost::%s is gone' % n, None)
    return fs[0], R.run(None, fn=fs[0], opaque=CVALL, **kw)


def alfn(R, n, nps=None, **kw):
    fs = [f for f in R.P.find(AL + '::' + n, inst=I62) if nps is None or len(f['ps']) == nps]
    if not fs:
        raise Removed('the constrained solver provides ' + n, n + ' is gone', None)
    return R.run(None, fn=fs[0], opaque=ACALL + kw.pop('opaque', ()), quiet=STATS, **kw)


def overknots(R, en, evs):
    """parts for covers() of the events whose receiver is the augmented cost of a knot point"""
    out = []
    n1 = [iadd(N_(R, en), ONE), nsize(alcosts(R, en))]
    for e in evs:
        k = knotpart(R, en, e.recv) if e.recv is not None else None
        if k is not None:
            out.append((e, ((k, ZERO, n1),)))
    return out


def replaced(R, kind, name):
    """setting the constraints of one kind leaves exactly those given"""
    fs = R.P.find(AC + '::' + name, inst=I62)
    for f in fs:
        en = R.run(None, fn=f)
        vec = vecs(R, en, THIS)[kind]
        ps = [e for e in calls(en) if e.name in ('push_back', 'emplace_back') and e.recv is vec]
        what = 'setting the %s constraints replaces those set before' % NAMES[kind]
        if not ps:
            R.ob(what, None, en.root, 'how the constraints are stored is not understood')
            continue
        e = ps[0]
        st = en.loops[e.loops[0]].s0 if e.loops else e.st
        n = st.read(fld(vec, '#size'))
        R.ob(what, cv(n) == 0 or (None if unresolved(n) and n.op != 'init' else False), e, 'number of constraints before the first is added: %s' % show(n)[:100])
        R.ob('each %s constraint given is taken over once' % NAMES[kind], len(e.loops) == 1 and always(en, e) or None, e, 'skipped on some path')
    R.ob('the %s constraints can be set' % NAMES[kind], True if fs else None, None, '')


@rule('C20', 'unfolding of loop accumulations into summands; exactly-once coverage of both constraint kinds at every knot point')
def c20(R):
    for name, outs, term in (('Evaluate', ('ret',), 'AugLag'), ('Gradient', (2, 3), 'AugLagGradient'), ('Hessian', (2, 3, 4), 'AugLagHessian')):
        f, en = acfn(R, name)
        cost = R.loc(en, AC + '::GetCostFunction', st=S0, inst=I62) if False else R.val(en, AC + '::GetCostFunction', st=S0, inst=I62)
        for o in outs:
            lab = {'ret': 'value', 2: 'state %s' % ('gradient' if name == 'Gradient' else 'block'), 3: 'control gradient' if name == 'Gradient' else 'mixed block', 4: 'control block'}[o]
            v = en.ret if o == 'ret' else en.final.read(raw('obj', 'arg%d' % o))
            ss = summands(en, v)
            if ss is None:
                why = partial(en, v)
                R.ob('the augmented %s is a sum over base cost and constraints' % lab, False if why else None, en.root, why or show(v)[:200])
                continue
            base, cons, odd = [], [], []
            for q, t, lp in ss:
                e, pos = callof(en, t)
                if e is None:
                    odd.append((q, t))
                    continue
                if e.fn is None:
                    R.ob('every term of the augmented %s is understood' % lab, None, e, 'calls an unknown function')
                    continue
                ok = q == 1 and pos == o
                R.ob('every term of the augmented %s is added with weight one at its own position' % lab, ok, e, 'weight %s, output %s' % (q, pos))
                R.ob('every term of the augmented %s is evaluated at the given state and control' % lab, len(e.args) > 1 and e.args[0][1] is S0.read(X_) and e.args[1][1] is S0.read(U_) or None if any(a[1] is not None and unresolved(a[1]) for a in e.args[:2]) else len(e.args) > 1 and e.args[0][1] is S0.read(X_) and e.args[1][1] is S0.read(U_), e, 'evaluated at (%s)' % ', '.join(show(a[1]) for a in e.args[:2] if a[1] is not None))
                if facts.strip_targs(e.fn['q']) == CV + '::' + term:
                    cons.append((e, lp))
                elif e.recv is deref(cost) and e.name == name:
                    base.append((e, lp))
                else:
                    odd.append((q, t))
            for q, t in odd:
                R.ob('the augmented %s consists of base cost and constraint terms' % lab, None if unresolved(t) else False, en.root, 'unexpected term %s * %s' % (q, show(t)[:200]))
            R.ob('the augmented %s contains the base cost once' % lab, len(base) == 1 and not base[0][1], base[0][0] if base else en.root, '%d base terms' % len(base))
            parts = byvisit(R, en, [e for e, _ in cons])
            if not any(unresolved(t) for _, t in odd):
                for kind in ('eq', 'ineq'):
                    R.sub(covers, en, 'the augmented %s contains every %s term once' % (lab, NAMES[kind]), parts[kind], None, en.root)
    # per knot point operations
    for n in ('UpdateDuals', 'UpdatePenalties', 'ResetDualVariables'):
        f, en = acfn(R, n)
        parts = byvisit(R, en, calls(en, q=CV + '::' + n))
        for kind in ('eq', 'ineq'):
            R.sub(covers, en, '%s visits every %s constraint of a knot point once' % (n, NAMES[kind]), parts[kind], None, en.root)
    f, en = acfn(R, 'GetConstraintInfo')
    lst = deref(S0.read(raw('obj', 'arg0')))
    app_ = [e for e in calls(en) if e.name in ('push_back', 'emplace_back') and e.recv is lst]
    src = []
    for e in app_:
        t = e.args[0][1] if e.args else None
        g = callof(en, t)[0] if t is not None else None
        if g is not None and g.loops == e.loops:
            m = byvisit(R, en, [g])
            for kind in m:
                src += [(kind, (e, m[kind][0][1]))] if m[kind] else []
    for kind in ('eq', 'ineq'):
        ps = [x for k, x in src if k == kind]
        if app_ and not ps and len(src) < len(app_):
            R.ob('the listing contains every %s constraint once' % NAMES[kind], None, en.root, 'not understood')
        else:
            R.sub(covers, en, 'the listing contains every %s constraint once' % NAMES[kind], ps, None, en.root)
    f, en = acfn(R, 'NumConstraints')
    R.sub(dimsum, en, 'the number of constraints of a knot point', lambda evs: byvisit(R, en, evs), 'OutputDimension')
    for kind, nm in (('eq', 'SetEqualityConstraints'), ('ineq', 'SetInequalityConstraints')):
        R.sub(replaced, kind, nm)
    # whole problem
    en = alfn(R, 'ResetDualVariables')
    R.sub(covers, en, 'a reset visits every knot point once', overknots(R, en, calls(en, q=AC + '::ResetDualVariables')), None, en.root)
    en = alfn(R, 'GetConstraintInfo')
    cs = calls(en, q=AC + '::GetConstraintInfo')
    ps = overknots(R, en, cs)
    R.sub(covers, en, 'the listing visits every knot point once', ps, None, en.root)
    R.sub(labels, en, ps)
    for nps in (0, 1):
        en = alfn(R, 'NumConstraints', nps)
        if nps == 0:
            R.sub(dimsum, en, 'the number of constraints of the problem', lambda evs: {'all': overknots(R, en, evs)}, 'NumConstraints')
        else:
            e, pos = callof(en, en.ret)
            k = knotpart(R, en, e.recv) if e is not None and e.recv is not None else None
            R.ob('the number of constraints at k is that of the augmented cost of k', (k is S0.read(raw('obj', 'arg0')) or k is S0.read(deref(S0.read(raw('obj', 'arg0'))))) if k is not None else (None if en.ret is None or unresolved(en.ret) or e is None else False), e or en.root, show(en.ret)[:200] if en.ret is not None else '')
    for kind, (fn, en, ev, parts) in maxparts(R, 'MaxPenalty').items():
        R.sub(covers, en, 'the maximum penalty of a knot point is over every %s constraint' % NAMES[kind], parts, None, en.root)


def dimsum(R, en, what, parts, fn):
    ss = summands(en, en.ret)
    if ss is None:
        why = partial(en, en.ret)
        return R.ob(what + ' is a sum', False if why else None, en.root, why or show(en.ret)[:200])
    evs = []
    for q, t, lp in ss:
        e, pos = callof(en, t)
        if e is None or e.name != fn:
            R.ob(what + ' adds up the single counts', None if unresolved(t) else False, en.root, 'term %s' % show(t)[:200])
            continue
        R.ob(what + ' counts each once', q == 1, e, 'weight %s' % q)
        evs.append(e)
    for kind, ps in parts(evs).items():
        R.sub(covers, en, what + ' counts ' + (NAMES.get(kind, 'all') + ' constraints' if kind != 'all' else 'every knot point'), ps, None, en.root)


def labels(R, en, ps):
    """every entry added to the listing carries the knot point index of the cost that added it"""
    for e, ((k, _, _),) in ps:
        lst = e.args[0][0] if e.args[0][0] is not None and not (e.args[0][1] is not None and e.args[0][1].op == 'addr') else engine._deref_t(e.args[0][1])
        st = [s_ for s_ in en.events if s_.kind == 'store' and s_.loc is not None and s_.loc.op == 'fld' and s_.loc.a[1] == 'index' and s_.loc.a[0].op == 'idx' and s_.loc.a[0].a[0] is lst]
        if not st:
            R.ob('listed constraints carry their knot point index', False if not en.unsupported else None, e, 'the index of listed constraints is never set')
        for s_ in st:
            same = s_.loops[:len(e.loops)] == e.loops and s_.seq > e.seq
            if not same:
                R.ob('listed constraints carry their knot point index', None, s_, 'set in another loop')
                continue
            R.ob('listed constraints carry their knot point index', (s_.val is k) or (None if unresolved_but(s_.val, k) else False), s_, 'index %s, required %s' % (show(s_.val), show(k)))
            iv = interval(en, s_, s_.loc.a[0].a[1])
            after = raw('hv', e.id, fld(lst, '#size'))
            if iv is None:
                R.ob('all entries a knot point adds get its index', None, s_, 'range unknown')
                continue
            lo, hi = iv[:2]
            L = en.loops[e.loops[-1]] if e.loops else None
            size = fld(lst, '#size')
            okhi = idiff(hi, after) == 0
            oklo = None
            if L is not None and L.back is not None:
                head = L.head.read(size)
                if lo is head:
                    oklo = True
                elif lo.op == 'mu' and lo.a[0] == L.key:
                    p = lo.a[-1]
                    oklo = L.back.read(p) is L.back.read(size) and L.s0.read(p) is L.s0.read(size)
                elif cv(lo) == 0:
                    oklo = False
            R.ob('all entries a knot point adds get its index', True if okhi and oklo else (None if oklo is None else False), s_, 'entries [%s, %s)' % (show(lo), show(hi)))


def unresolved_but(t, k):
    ks = set(walk(k))
    return contains(t, lambda x: x.op in ('hv', 'undef', 'unk', 'pat') and x not in ks)


def maxparts(R, n):
    f, en = acfn(R, n)
    ms = maxima(en, en.ret)
    out = {}
    if ms is None or any(m[0] != 'buffer' and callof(en, m[0])[0] is None for m in ms):
        R.ob('%s of a knot point is a maximum' % n, False if lastonly(en, en.ret, n) else None, en.root, show(en.ret)[:200])
        return {}
    evs = [callof(en, m[0])[0] for m in ms if m[0] != 'buffer']
    parts = byvisit(R, en, [e for e in evs if e.name == n])
    bad = [e for e in evs if e.name != n]
    if bad:
        R.ob('%s of a knot point is over its constraints' % n, None, bad[0], 'value of %s' % bad[0].name)
    return {k: (f, en, ms, v) for k, v in parts.items()}


# ---------------------------------------------------------------- C21
def conefn(R, cls, n):
    fs = [f for f in R.P.fns.values() if facts.strip_targs(f['q']) == CN + cls + '::' + n]
    if not fs:
        return None
    return R.run(None, fn=fs[0])


@rule('C21', 'symbolic element-wise evaluation of projections and their Jacobians by sign of the argument; cone selection at every use')
def c21(R):
    a0, a1 = raw('obj', 'arg0'), raw('obj', 'arg1')
    for cls in ('ZeroCone', 'IdentityCone', 'NegativeOrthant'):
        en = conefn(R, cls, 'Projection')
        if en is None:
            raise Removed('cones project', '%s::Projection is gone' % cls, None)
        rows = rows_of(R, en, a1, (a0, a1))
        rows += [x for l in (a0, a1) for x in (S0.read(fld(l, '#size')),)]
        R.sub(is_projection, en, 'the projection onto %s' % cls, a1, lambda i: S0.read(idx(a0, i)), cls, rows, en.root)
        en = conefn(R, cls, 'Jacobian')
        if en is None:
            raise Removed('cones provide the Jacobian of the projection', '%s::Jacobian is gone' % cls, None)
        R.sub(jacobian, en, cls, a0, a1, rows)
        en = conefn(R, cls, 'Hessian')
        if en is not None:
            out = raw('obj', 'arg2')
            v = en.final.read(out)
            z = v.op == 'app' and v.a[0] == 'Zero'
            R.ob('the second derivative of the projection onto %s is zero' % cls, True if z else (None if unresolved(v) or v.op == 'agg' else False), en.root, 'result %s' % show(v)[:200])
    # every use takes the cone or dual cone of the constraint's kind
    for kind in ('eq', 'ineq'):
        for n, want in (('UpdateDuals', DUAL), ('AugLag', DUAL), ('AugLagGradient', DUAL), ('AugLagHessian', DUAL), ('MaxViolation', PRIMAL), ('GetViolation', PRIMAL), ('GetConstraintInfo', PRIMAL)):
            en = cvrun(R, n, kind, opaque=CONEFNS)
            if en is None:
                continue
            cs = [e for e in calls(en) if facts.strip_targs(e.fn['q']) in CONEFNS]
            if not cs:
                R.ob('%s of %s constraints uses the right cone' % (n, NAMES[kind]), None, en.root, 'no cone function is called')
            for e in cs:
                R.ob('%s of %s constraints uses the right cone' % (n, NAMES[kind]), coneclass(e) == want[kind], e, 'uses %s, required %s' % (coneclass(e), want[kind]))


def jacobian(R, en, cls, a0, a1, rows):
    name = 'the Jacobian of the projection onto %s' % cls
    v = en.final.read(a1)
    if v.op == 'app' and v.a[0] in ('Zero', 'Identity'):
        want = {'ZeroCone': 'Zero', 'IdentityCone': 'Identity'}.get(cls)
        return R.ob(name, v.a[0] == want, en.root, 'is %s' % v.a[0])
    sts = [e for e in en.events if e.kind == 'store' and e.loc is not None and under(e.loc, a1)]
    if v.op == 'mu' and v.a[-1] is a1 and sts and all(e.loc.op == 'idx' and len(e.loc.a) == 3 or e.loc is a1 for e in sts):
        iv = []
        for e in sts:
            if e.loc is a1:
                R.ob(name + ' (off the diagonal)', True if e.val.op == 'app' and e.val.a[0] == 'Zero' else None, e, show(e.val)[:100])
                continue
            i, j = e.loc.a[1:]
            if i is not j:
                R.ob(name + ' (off the diagonal)', cv(e.val) == 0 or (None if cv(e.val) is None else False), e, 'entry (%s, %s) is %s' % (show(i), show(j), show(e.val)[:100]))
                continue
            w = S0.read(idx(a0, i))
            got = [(k, None if None in l else g) for k, l in signleaves(e.val, w).items() for g in l if g is not None] if cls == 'NegativeOrthant' else [(k, e.val) for k in (-1, 0, 1)]
            want = {'NegativeOrthant': {-1: (1,), 0: (0, 1), 1: (0,)}, 'IdentityCone': {-1: (1,), 0: (1,), 1: (1,)}, 'ZeroCone': {-1: (0,), 0: (0,), 1: (0,)}}[cls]
            for s_, g in got:
                k = cv(g) if g is not None else None
                R.ob(name, None if g is None or k is None and unresolved(g) else k in want[s_], e, 'diagonal entry for %s argument is %s' % ({-1: 'a negative', 0: 'a zero', 1: 'a positive'}[s_], show(g) if g is not None else 'not decided by its sign'))
            iv.append((interval(en, e, i) or (None,))[:2])
            R.ob(name + ' (every entry)', always_all(en, e) or (None if unresolved_pc(en, e) else False), e, 'entries are skipped on some path')
        if any(x[0] is None for x in iv):
            return R.ob(name + ' (range)', None, en.root, 'range unknown')
        rs = [tiles(iv, ZERO, r) for r in rows]
        return R.ob(name + ' (range)', True if True in rs else (False if False in rs else None), en.root, 'entries %s' % [(show(a), show(b)) for a, b in iv])
    if not sts and v is S0.read(a1):
        return R.ob(name, False, en.root, 'the output is never written')
    R.ob(name, None, en.root, 'value %s' % show(v)[:200])


def nonempty(v):
    """v without the case of an empty constraint, in which it is zero"""
    if v is not None and v.op == 'ite':
        ls = [(p, x) for p, x in cases(v)]
        z = [p for p, x in ls if cv(x) == 0]
        o = [x for p, x in ls if cv(x) != 0]
        if len(o) == 1 and z and all(a.op in ('ilt0', 'ieq0', 'eq') and contains(a, lambda y: y.op == 'fld' and y.a[-1] in ('#rows', '#size')) for p in z for a in atoms(p)):
            return o[0]
    return v


# ---------------------------------------------------------------- C22
@rule('C22', 'symbolic normal form of the single violation; unfolding of nested maxima with coverage of constraints and knot points')
def c22(R):
    for kind in ('eq', 'ineq'):
        cc = cvloc(R, en0(R, kind), 'GetConstraintValue', kind)
        c0 = S0.read(cc)
        for n in ('MaxViolation', 'GetViolation', 'GetConstraintInfo'):
            en = cvrun(R, n, kind, opaque=CONEFNS)
            if en is None:
                if n == 'MaxViolation':
                    raise Removed('a constraint reports its violation', 'ConstraintValues::MaxViolation is gone', None)
                continue
            v = en.ret
            signed = False
            name = '%s of %s constraints is value minus projection' % (n, NAMES[kind])
            if n == 'MaxViolation':
                v = nonempty(v)
                if v is not None and v.op == 'app' and v.a[0] == 'E.maxCoeff' and v.a[1].op != 'app':
                    # without absolute values: the largest component of c - P(c), which is never negative for inequalities
                    v = v.a[1]
                    signed = True
                elif v is not None and v.op == 'app' and v.a[0] == 'lpNorm' and infnorm(v):
                    v = v.a[2]
                elif v is not None and v.op == 'app' and v.a[0] == 'E.maxCoeff' and v.a[1].op == 'app' and v.a[1].a[0] in ('E.cwiseAbs', 'E.abs'):
                    v = v.a[1].a[1]
                else:
                    bad = v is not None and v.op == 'app' and (v.a[0] in ('E.norm', 'E.sum', 'E.squaredNorm', 'E.maxCoeff', 'E.minCoeff') or v.a[0] == 'lpNorm')
                    R.ob('the violation of a constraint is its largest component', False if bad else None, en.root, show(v)[:200] if v is not None else '')
                    continue
                R.ob('the violation of a constraint is its largest component', True, en.root)
            elif n == 'GetViolation':
                if v is not None and v.op == 'addr':
                    v = en.final.read(v.a[0])
            else:
                v = infofield(v, 'violation')
            if v is None:
                R.ob(name, None, en.root, 'not understood')
                continue
            pr = [e for e in conecalls(en, 'Projection') if contains(v, lambda x: x.op == 'hv' and x.a[0] == e.id)]
            if not pr:
                R.ob(name, None if not conecalls(en, 'Projection') or unres2(v) else False, en.root, 'found %s' % show(v)[:200])
                continue
            e = pr[0]
            P_ = raw('hv', e.id, e.args[1][0])
            R.ob('the projection of %s constraint values onto their cone is taken' % NAMES[kind], coneclass(e) == PRIMAL[kind], e, 'uses %s' % coneclass(e))
            R.ob('the stored constraint value is projected (%s)' % n, e.args[0][1] is c0 or (None if unres2(e.args[0][1]) else False), e, 'projects %s' % show(e.args[0][1])[:200])
            nf = NF()
            d, r = nf.eq(v, raw('-', c0, P_)), nf.eq(v, raw('-', P_, c0))
            if signed:
                ok = d and kind == 'ineq'
                if not ok and not d and not r:
                    R.ob(name, None, en.root, 'found %s' % show(v)[:200])
                    continue
            else:
                ok = d or n == 'MaxViolation' and r
            R.ob(name, True if ok else (None if unres2(v) else False), en.root, 'found %s' % show(v)[:300])
        # the maximum penalty of one constraint
        en = cvrun(R, 'MaxPenalty', kind)
        if en is not None and en.ret is not None:
            pen = S0.read(cvloc(R, en, 'GetPenalty', kind))
            v = en.ret
            ok = v.op == 'app' and (v.a[0] == 'E.maxCoeff' or v.a[0] == 'lpNorm' and infnorm(v)) and v.a[-1] is pen
            R.ob('the maximum penalty of a constraint is over all its entries', True if ok else (None if unresolved(v) or v.op == 'ite' else False), en.root, show(v)[:200])
    # knot point
    for n, what in (('MaxViolation', 'violation'), ('MaxPenalty', 'penalty')):
        for kind, (f, en, ms, parts) in maxparts(R, n).items():
            R.sub(covers, en, 'the maximum %s of a knot point is over every %s constraint' % (what, NAMES[kind]), parts, None, en.root)
            for m in ms:
                if m[0] == 'buffer' and kind == 'eq':
                    R.sub(bufsize, en, m[1])
    # problem
    for n, g in (('GetMaxViolation', 'MaxViolation'), ('GetMaxPenalty', 'MaxPenalty')):
        en = alfn(R, n)
        ms = maxima(en, en.ret)
        if ms is None or any(m[0] != 'buffer' and callof(en, m[0])[0] is None for m in ms):
            old = stale(en)
            R.ob('%s is a maximum over knot points' % n, False if old is not None or lastonly(en, en.ret, g) else None, old or en.root, ('combined with values of an earlier call: ' if old is not None else '') + show(en.ret)[:200])
            continue
        evs = [callof(en, m[0])[0] for m in ms if m[0] != 'buffer']
        for e in evs:
            R.ob('%s takes the maximum of each knot point' % n, e.name == g, e, 'takes %s' % e.name)
        R.sub(covers, en, '%s is over every knot point' % n, overknots(R, en, [e for e in evs if e.name == g]), None, en.root)
        for m in ms:
            if m[0] == 'buffer':
                R.sub(knotbuffer, en, m[1], n)
    for nps in (0, 1):
        fs = [f for f in R.P.find(AL + '::MaxViolation', inst=I62) if len(f['ps']) == nps]
        for f in fs:
            en = R.run(None, fn=f, opaque=(ILQR + '::Cost', AL + '::GetMaxViolation'), quiet=STATS)
            il = R.loc(en, AL + '::GetiLQRSolver', st=S0, inst=I62)
            cs = [e for e in calls(en, q=ILQR + '::Cost') if e.recv is il]
            gm = calls(en, q=AL + '::GetMaxViolation')
            R.ob('the violation of a trajectory is computed from constraints evaluated on it', bool(cs) and bool(gm) and cs[0].seq < gm[0].seq and always(en, cs[0]), cs[0] if cs else en.root, 'the constraints are not evaluated before the violation is collected')
            for e in cs:
                if nps == 1:
                    z = raw('obj', 'arg0')
                    R.ob('the constraints are evaluated on the given trajectory', bool(e.args) and e.args[0][0] is z, e, 'evaluated on another trajectory')
            for e in gm:
                R.ob('the violation of a trajectory is the maximum over all knot points', en.ret is raw('ret', e.id, e.recv) or callof(en, en.ret)[0] is e, e, show(en.ret)[:100])


def en0(R, kind):
    return cvrun(R, 'MaxViolation', kind, opaque=CONEFNS) or cvctor(R, kind)


def infofield(v, name):
    if v is None:
        return None
    if v.op == 'rec':
        for f in v.a:
            if isinstance(f, tuple) and f[0] == name:
                return f[1]
        for f in (v.a[0] if v.a and isinstance(v.a[0], tuple) else ()):
            if isinstance(f, tuple) and f[0] == name:
                return f[1]
    if v.op == 'agg':
        for p, x in v.a[1]:
            if p and p[-1] == ('f', name):
                return x
    return None


def bufsize(R, en, buf):
    pass


def knotbuffer(R, en, buf, n):
    """the buffer of per-knot-point values has one entry per knot point"""
    fs = R.P.find(AL + '::InitializeFromProblem', inst=I62)
    if not fs:
        return
    key = ('initfrom',)
    if key not in R.cache:
        R.cache[key] = R.run(None, fn=fs[0], quiet=STATS)
    e2 = R.cache[key]
    v = e2.final.read(buf)
    want = iadd(R.val(e2, AL + '::NumSegments', inst=I62), ONE)
    if v.op == 'app' and v.a[0] == 'Zero' and len(v.a) > 1:
        d = idiff(v.a[1], want)
        if d != 0:
            d2 = idiff(v.a[1], iadd(R.val(e2, 'altro::problem::Problem::NumSegments', this=raw('obj', 'arg0')), ONE))
            d = d2 if d is None or d2 == 0 else d
        R.ob('there is one entry per knot point in %s' % n, True if d == 0 else (None if d is None else False), e2.root, '%s entries, required %s' % (show(v.a[1]), show(want)))
    else:
        R.ob('there is one entry per knot point in %s' % n, None, e2.root, show(v)[:200])


# ---------------------------------------------------------------- C23
PB = 'altro::problem::Problem'
KPQ = 'altro::ilqr::KnotPointFunctions'


def pbfield(R, en, g, k, obj=THIS):
    """location behind an indexed getter of a problem"""
    v = R.val(en, PB + '::' + g, this=obj, st=S0, args=[k])
    return v.a[-1] if v.op == 'init' else None


def pbvec(R, en, g, obj=THIS):
    return R.loc(en, PB + '::' + g, this=obj, st=S0)


@rule('C23', 'points-to and value analysis of problem construction: which object ends up at which knot point')
def c23(R):
    fs = [f for f in R.P.fns.values() if f['n'] == 'BuildAugLagProblem' and f.get('b')] or [f for f in R.P.fns.values() if f['n'] == 'BuildAugLagProblem']
    if not fs:
        raise Removed('an augmented problem is built', 'BuildAugLagProblem is gone', None)
    en = R.run(None, fn=fs[0])
    src = raw('obj', 'arg0')
    k = raw('obj', '@k')
    nvec = R.val(en, PB + '::NumSegments', this=src, st=S0)
    res = raw('obj', '@result')
    S = engine.State()
    S.write(res, en.ret)
    got = R.val(en, PB + '::NumSegments', this=res, st=S)
    R.ob('the augmented problem has the same horizon', got is nvec or (None if unresolved(got) else False), en.root, 'horizon %s' % show(got)[:200])
    want = R.val(en, PB + '::GetInitialStatePointer', this=src, st=S0)
    got = R.val(en, PB + '::GetInitialStatePointer', this=res, st=S)
    R.ob('the augmented problem shares the initial state', got is want or (None if unresolved(got) else False), en.root, 'initial state %s' % show(got)[:200])
    x0 = deref(want)
    for e in en.events:
        if e.kind == 'store' and e.loc is not None and under(e.loc, x0) and e.val is not S0.read(e.loc):
            R.ob('the initial state is left alone', None if unresolved(e.val) else False, e, 'set to %s' % show(e.val)[:200])
    costf = pbfield(R, en, 'GetCostFunction', k).a[0].a[1]
    dynf = pbfield(R, en, 'GetDynamics', k).a[0].a[1]
    stc, std = [], []
    for e in en.events:
        if e.kind == 'store' and e.loc is not None and e.loc.op == 'idx' and e.loc.a[0].op == 'fld' and e.loc.a[0].a[0] is not src and e.loc.a[0].a[0].op == 'var':
            if e.loc.a[0].a[1] == costf:
                stc.append(e)
            elif e.loc.a[0].a[1] == dynf:
                std.append(e)
    # dynamics
    parts = []
    for e in std:
        i = e.loc.a[1]
        if idiff(i, nvec) == 0 or implies(e.pc, eq(i, nvec, True)):
            continue        # placeholder at the last knot point
        w = S0.read(pbfield(R, en, 'GetDynamics', i, src))
        R.ob('the dynamics of each knot point are taken over', e.val is w or (None if unresolved_but(e.val, w) else False), e, 'knot point %s gets %s' % (show(i), show(e.val)[:200]))
        parts.append((e, ((i, ZERO, nvec),)))
    R.sub(covers, en, 'all dynamics are taken over', parts, None, en.root)
    # costs
    parts = []
    pushes_ = [e for e in calls(en) if e.name in ('push_back', 'emplace_back') and e.recv is deref(S0.read(raw('obj', 'arg1')))]
    for e in stc:
        i = e.loc.a[1]
        o = e.val
        parts.append((e, ((i, ZERO, iadd(nvec, ONE)),)))
        if o.op != 'new':
            R.ob('the augmented problem uses augmented costs', None if unresolved(o) else False, e, 'cost %s' % show(o)[:200])
            continue
        O = deref(o)
        g = R.val(en, AC + '::GetCostFunction', this=O, st=e.st, inst=I62)
        w = S0.read(pbfield(R, en, 'GetCostFunction', i, src))
        R.ob('each augmented cost wraps the cost of its knot point', g is w or (None if unresolved_but(g, w) else False), e, 'wraps %s, required %s' % (show(g)[:200], show(w)[:100]))
        own = vecs(R, en, O)
        for kind, getter in (('eq', 'GetEqualityConstraints'), ('ineq', 'GetInequalityConstraints')):
            fr = idx(pbvec(R, en, getter, src), i)
            ps = []
            for q in en.events:
                if q.kind == 'call' and q.name in ('push_back', 'emplace_back') and q.recv is own[kind] and q.loops[:len(e.loops)] == e.loops:
                    v = q.args[0][1]
                    if v.op != 'new':
                        R.ob('each augmented cost holds the %s constraints of its knot point' % NAMES[kind], None, q, show(v)[:100])
                        continue
                    con = R.val(en, CV + '::GetConstraint', this=deref(v), st=q.st, inst=KIND[kind])
                    if con.op == 'init' and con.a[0].op == 'idx' and con.a[0].a[0] is fr:
                        ps.append((q, ((con.a[0].a[1], ZERO, S0.read(fld(fr, '#size'))),)))
                    else:
                        R.ob('each augmented cost holds the %s constraints of its knot point' % NAMES[kind], None if unresolved_but(con, S0.read(idx(fr, ZERO))) and con.op != 'init' else False, q, 'holds %s' % show(con)[:200])
            R.sub(covers, en, 'each augmented cost holds the %s constraints of its knot point' % NAMES[kind], ps, e.loops[-1] if e.loops else None, e)
        # the same object is handed to the solver
        mine = [q for q in pushes_ if q.loops == e.loops and q.args and q.args[0][1] is o]
        nn = NOT(tobool(eq(S0.read(raw('obj', 'arg1')), NULL)))
        if not mine and pushes_ and any(unresolved(q.args[0][1]) for q in pushes_):
            R.ob('the solver is given the same augmented cost', None, e, '')
        else:
            R.ob('the solver is given the same augmented cost', len(mine) == 1 and always_all(en, mine[0], given=AND(nn, ptrbool(S0.read(raw("obj", "arg1"))))), mine[0] if mine else e, '%d hand-overs of the cost of a knot point' % len(mine))
        for q in mine:
            L = en.loops[q.loops[-1]] if q.loops else None
            if L is not None and L.main is not None:
                d = idiff(i, L.main[0])
                R.ob('the solver is given the augmented costs in knot point order', L.main[2] > 0 and d is not None, q, 'order of the costs')
    R.sub(covers, en, 'every knot point has an augmented cost', parts, None, en.root)
    for q in pushes_:
        if not any(q.args and q.args[0][1] is e.val for e in stc):
            R.ob('the solver is given only costs of the problem', None if q.args and unresolved(q.args[0][1]) else False, q, 'another cost is handed over')
    # the constrained solver
    fs = R.P.find(AL + '::InitializeFromProblem', inst=I62)
    if not fs:
        raise Removed('the constrained solver takes a problem', 'InitializeFromProblem is gone', None)
    bq = facts.strip_targs(en.root['q'])
    en = R.run(None, fn=fs[0], opaque=(bq, ILQR + '::CopyFromProblem', ILQR + '::InitializeFromProblem'), quiet=STATS)
    b = [e for e in calls(en) if facts.strip_targs(e.fn['q']) == bq]
    R.ob('the constrained solver builds its problem from the given one', len(b) == 1 and b[0].args[0][0] is src and always_all(en, b[0]), b[0] if b else en.root, 'augmented problem not built from the argument')
    ac = alcosts(R, en)
    for e in b:
        a = e.args[1][1] if len(e.args) > 1 else None
        R.ob('the constrained solver keeps the augmented costs of its problem', a is addr(ac) or (None if a is not None and unresolved(a) else False), e, 'costs go to %s' % (show(a) if a is not None else 'nowhere'))
    il = R.loc(en, AL + '::GetiLQRSolver', st=S0, inst=I62)
    cp = [e for e in calls(en) if e.name in ('CopyFromProblem', 'InitializeFromProblem') and e.recv is il]
    R.ob('the inner solver gets the augmented problem', bool(cp) and always_all(en, cp[0]), cp[0] if cp else en.root, 'the inner solver is not set up')
    n1 = iadd(nvec, ONE)
    for e in cp:
        v = e.args[0][1]
        R.ob('the inner solver gets the augmented problem', contains(v, lambda x: x.op == 'ret' and b and x.a[0] == b[0].id) or e.args[0][0] is not src and None, e, 'set up from %s' % show(v)[:100])
        if e.name == 'CopyFromProblem':
            lo, hi = e.args[1][1], e.args[2][1]
            okr = cv(lo) == 0 and (idiff(hi, n1) == 0 or idiff(hi, iadd(N_(R, en), ONE)) == 0)
            R.ob('the inner solver gets every knot point', True if okr else (None if unresolved(hi) or unresolved(lo) else False), e, '[%s, %s)' % (show(lo), show(hi)))
    # the unconstrained solver
    for f in R.P.find(ILQR + '::CopyFromProblem', inst=I62):
        en = R.run(None, fn=f)
        lo, hi = S0.read(raw('obj', 'arg1')), S0.read(raw('obj', 'arg2'))
        ps = []
        kpv = kpvector(R, en)
        for q in calls(en):
            if q.name in ('push_back', 'emplace_back') and q.recv is kpv:
                v = q.args[0][1]
                if v.op != 'new':
                    R.ob('the solver takes over dynamics and cost of each knot point', None, q, show(v)[:100])
                    continue
                O = deref(v)
                mdl = R.val(en, KPQ + '::GetModelPtr', this=O, st=q.st, inst=I62)
                cst = R.val(en, KPQ + '::GetCostFunPtr', this=O, st=q.st, inst=I62)
                ks = []
                for g, val, what in (('GetDynamics', mdl, 'dynamics'), ('GetCostFunction', cst, 'cost')):
                    fr = pbfield(R, en, g, k, src).a[0]
                    if val.op == 'init' and val.a[0].op == 'idx' and val.a[0].a[0] is fr:
                        ks.append(val.a[0].a[1])
                    else:
                        R.ob('the solver takes over the %s of each knot point' % what, None if unresolved(val) else False, q, 'takes %s' % show(val)[:200])
                R.ob('dynamics and cost of a knot point belong together', len(set(ks)) == 1 if len(ks) == 2 else None, q, 'taken from %s' % [show(x) for x in ks])
                if ks:
                    ps.append((q, ((ks[0], lo, hi),)))
                    L = en.loops[q.loops[-1]] if q.loops else None
                    R.ob('the solver keeps knot point order', L is not None and L.main is not None and L.main[2] > 0 if L is not None and L.main is not None else None, q, 'order of knot points')
        R.sub(covers, en, 'the solver takes over every requested knot point', ps, None, en.root)
        want = R.val(en, PB + '::GetInitialStatePointer', this=src, st=S0)
        if R.P.find(ILQR + '::GetInitialState', inst=I62):
            v = R.val(en, ILQR + '::GetInitialState', inst=I62)
            R.ob('the solver shares the initial state of the problem', v is want or (None if unresolved(v) else False), en.root, 'initial state %s' % show(v)[:200])


def kpvector(R, en):
    """the vector of knot point functions"""
    v = kp_of(R, en, raw('obj', '@k'), S0)
    return v.a[0].a[-1].a[0]
