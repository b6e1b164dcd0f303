"""C42: a problem holds exactly what it was given, at the knot points named."""
from rulelib import *
from rules.kpf import *
from rules.life import S_INIT as S0
from rules.al2 import dimsum, NAMES

PB = 'altro::problem::Problem'
A0, A1 = raw('obj', 'arg0'), raw('obj', 'arg1')


def fns(R, n, np=None, pred=None):
    return [f for f in R.P.find(PB + '::' + n) if (np is None or len(f['ps']) == np) and (pred is None or pred(f))]


def pty(f, i=0):
    return f['T'][f['ps'][i]['t']].get('s', '')


def backing(R, getter, k=None):
    """member vector an indexed getter reads (or whose reference an unindexed getter gives)"""
    fs = fns(R, getter)
    if not fs:
        return None
    v = R.run(None, fn=fs[0]).ret
    l = v.a[0] if v is not None and v.op in ('init', 'addr') else None
    if l is not None and l.op == 'idx' and l.a[1] is S0.read(A0):
        l = l.a[0]
    return l if l is not None and l.op == 'fld' and l.a[0] is THIS else None


class Members:
    pass


def mems(R):
    M = Members()
    M.cost, M.dyn = backing(R, 'GetCostFunction'), backing(R, 'GetDynamics')
    M.eq, M.ineq = backing(R, 'GetEqualityConstraints'), backing(R, 'GetInequalityConstraints')
    M.x0 = backing(R, 'GetInitialStatePointer')
    f = fns(R, 'NumSegments')
    v = R.run(None, fn=f[0]).ret if f else None
    M.n = v if v is not None and v.op == 'init' else None
    return M


def own(l):
    while l is not None and l.op in ('fld', 'idx', 'blk') and isinstance(l.a[0], T):
        if l is THIS:
            return True
        l = l.a[0]
    return l is THIS


def under_(t, pc):
    return restrict(t, pc) if t.op == 'ite' and sat(pc) else t


def vecs(M):
    return (M.cost, M.dyn, M.eq, M.ineq)


def sized(M):
    """entry state of a problem: room for every knot point (established by the constructor, kept by every setter)"""
    def setup(en, fr):
        for v in vecs(M):
            en.st.write(fld(v, '#size'), iadd(M.n, ONE))
    return setup


def keeps_size(R, en, what, M):
    for v in vecs(M):
        n = en.final.read(fld(v, '#size'))
        d = idiff(n, iadd(M.n, ONE))
        R.ob('%s keeps room for every knot point' % what, d == 0 if d is not None else (None if unresolved(n) else False), en.root, '%s entries of %s' % (show(n), show(v)))


def only(R, en, what, allowed):
    """nothing of the problem changes apart from the locations allowed"""
    for e in en.events:
        if e.kind == 'store' and own(e.loc) and not (e.loc.op == 'fld' and str(e.loc.a[1]).startswith('#')):
            ok = any(a(e.loc, e) for a in allowed)
            R.ob('%s leaves the rest of the problem alone' % what, ok or (None if unresolved_pc(en, e) else False), e, 'writes %s' % show(e.loc)[:100])
    R.ob('%s is analysed' % what, True, en.root)


def settle(v, pc, asm):
    """leave out writes to elements that the assertions tell apart"""
    while v.op == 'mayw' and v.a[2].op == 'idx' and all(k[0].op == 'idx' and k[0].a[0] is v.a[2].a[0] and implies(AND(pc, tobool(eq(k[0].a[1], v.a[2].a[1], True))), FALSE, asm) for k in v.a[1]):
        v = v.a[0]
    return v


def stored(R, en, what, loc, val):
    v = settle(under_(en.final.read(loc), en.final.pc), en.final.pc, assumed(en))
    bad = [(q, x) for q, x in cases(v) if x is not val and sat(AND(q, en.final.pc)) and not implies(AND(q, en.final.pc), FALSE, assumed(en))]
    R.ob('%s stores what it is given at the knot point named' % what, True if not bad else (None if all(unresolved(x) for _, x in bad) and bad[0][1].op != 'init' else False), en.root, '' if not bad else '%s is %s' % (show(loc), show(bad[0][1])[:100]))


@rule('C42', 'final-state and frame analysis of every setter, exactly-once coverage of the list forms')
def c42(R):
    M = mems(R)
    if None in vars(M).values():
        return R.ob('the members of a problem are understood', None, None, str({k: v and show(v) for k, v in vars(M).items()}))
    R.sub(single, M)
    R.sub(lists, M)
    R.sub(constraints, M)
    R.sub(counts, M)
    R.sub(initial, M)
    R.sub(sizes, M)
    R.sub(reading, M)


def single(R, M):
    k = S0.read(A1)
    for n, vec in (('SetCostFunction', M.cost), ('SetDynamics', M.dyn)):
        fs = fns(R, n, 2, lambda f: 'vector' not in pty(f))
        if not fs:
            raise Removed(n, 'the setter is gone')
        for f in fs:
            en = R.run(None, fn=f, setup=sized(M))
            keeps_size(R, en, n, M)
            at = idx(vec, k)
            stored(R, en, n, at, S0.read(A0))
            only(R, en, n, [lambda l, e: same(l, vec, k, e.pc)] + ([lambda l, e: same(l, vec, M.n, e.pc)] if n == 'SetDynamics' else []))
            if n == 'SetDynamics':
                terminal(R, en, M, vec, k)


def same(l, vec, i, pc):
    """location l is vec[i] whenever it is written"""
    return l.op == 'idx' and l.a[0] is vec and len(l.a) == 2 and (l.a[1] is i or implies(pc, tobool(eq(l.a[1], i, True))))


def terminal(R, en, M, vec, k):
    atend = tobool(eq(k, isub(M.n, ONE), True))
    ws = [e for e in en.events if e.kind == 'store' and e.loc is not None and same(e.loc, vec, M.n, e.pc)]
    done = FALSE
    for e in ws:
        done = OR(done, e.pc)
        R.ob('only the dynamics of the last segment define the terminal knot point', not sat(AND(e.pc, NOT(atend))) or implies(AND(e.pc, NOT(atend)), FALSE, assumed(en, e)) or (None if unresolved_pc(en, e) else False), e)
        for _, x in cases(e.val):
            ct = [c_ for c_ in calls(en) if c_.recv is deref(x) and c_.name == 'IdentityDynamics']
            if not ct:
                R.ob('the terminal knot point has the state and control dimension of the last segment', None, e, show(x)[:80])
            for c_ in ct:
                ok = True
                for i, d in ((0, 'StateDimension'), (1, 'ControlDimension')):
                    a = c_.args[i][1] if len(c_.args) > i else None
                    ok = ok and a is not None and a.op == 'app' and str(a.a[0]).split(':')[-1] == d and a.a[1] is S0.read(A0)
                R.ob('the terminal knot point has the state and control dimension of the last segment', ok or (None if any(a[1] is None or unresolved(a[1]) and a[1].op not in ('app',) for a in c_.args) else False), c_, ', '.join(show(a[1])[:60] for a in c_.args if a[1] is not None))
    R.ob('the dynamics of the last segment also give the terminal knot point its dimensions', implies(AND(en.final.pc, atend), done, assumed(en)) or (None if en.unsupported or any(unresolved_pc(en, e) for e in ws) else False), ws[0] if ws else en.root)


def lists(R, M):
    k0 = S0.read(A1)
    for n, vec in (('SetCostFunction', M.cost), ('SetDynamics', M.dyn)):
        fs = fns(R, n, 2, lambda f: 'vector' in pty(f))
        for f in fs:
            en = R.run(None, fn=f, setup=sized(M))
            keeps_size(R, en, n, M)
            name = 'a list given to %s is stored from the start index on, one entry per knot point' % n
            parts = []
            for e in stores(en, lambda l: l is not None and l.op == 'idx' and l.a[0] is vec):
                v, i = e.val, e.loc.a[1]
                if n == 'SetDynamics' and v.op != 'init' and same(e.loc, vec, M.n, e.pc):
                    continue
                if v.op != 'init' or v.a[0].op != 'idx' or v.a[0].a[0] not in (A0, deref(S0.read(A0))):
                    R.ob(name, None if unresolved(v) else False, e, 'stores %s' % show(v)[:80])
                    continue
                j = v.a[0].a[1]
                d = idiff(i, iadd(j, k0))
                R.ob('an entry of a list given to %s goes to its knot point' % n, d == 0 or (None if d is None and unresolved(i) and not contains(i, lambda x: x.op == 'mu') else False), e, 'entry %s is stored at %s' % (show(j), show(i)))
                parts.append((e, ((j, ZERO, S0.read(fld(v.a[0].a[0], '#size'))),)))
            if parts:
                R.sub(covers, en, name, parts, None, en.root)
            else:
                R.ob(name, None if en.unsupported else False, en.root, 'nothing is stored')


def constraints(R, M):
    k = S0.read(A1)
    got = set()
    for f in fns(R, 'SetConstraint', 2):
        t = pty(f)
        kind = ('eq' if 'ZeroCone' in t else 'ineq' if 'NegativeOrthant' in t else None) if 'Constraint<' in t else None
        en = R.run(None, fn=f, setup=sized(M))
        keeps_size(R, en, 'SetConstraint', M)
        ps = [e for e in calls(en) if e.name in ('push_back', 'emplace_back', 'insert', 'emplace') and own(e.recv)]
        name = 'a constraint is added once, to the constraints of the knot point named'
        if len(ps) != 1 or ps[0].loops:
            R.ob(name, False if not en.unsupported and (not ps or len(ps) > 1 and any(sat(AND(ps[0].pc, p.pc)) for p in ps[1:])) else None, ps[0] if ps else en.root, '%d insertions' % len(ps))
            continue
        e = ps[0]
        R.ob(name, implies(en.final.pc, e.pc, assumed(en)) and (e.recv.op == 'idx' and e.recv.a[1] is k) or (None if unresolved(e.recv) else False), e, 'into %s' % show(e.recv))
        R.ob('the constraint added is the one given', e.args[-1][1] is S0.read(A0) or (None if unresolved(e.args[-1][1]) else False), e, show(e.args[-1][1])[:80])
        base = e.recv.a[0] if e.recv.op == 'idx' else None
        which = 'eq' if base is M.eq else 'ineq' if base is M.ineq else None
        if kind:
            got.add(kind)
            R.ob('%s constraints are kept with their kind' % NAMES[kind], which == kind if which else None, e, 'into %s' % show(e.recv))
        only(R, en, 'SetConstraint', [lambda l, z: under(l, e.recv)])
    for kind in ('eq', 'ineq'):
        R.ob('%s constraints can be added' % NAMES[kind], True if kind in got else None, None)


def counts(R, M):
    k = S0.read(A0)
    for f in fns(R, 'NumConstraints', 1):
        en = R.run(None, fn=f)

        def parts(evs):
            out = {'eq': [], 'ineq': []}
            for e in evs:
                l = e.recv.a[0] if e.recv is not None and e.recv.op == 'deref' else None
                l = l.a[0] if l is not None and l.op == 'init' else l
                if l is None or l.op != 'idx' or l.a[0].op != 'idx':
                    continue
                kind = 'eq' if l.a[0].a[0] is M.eq else 'ineq' if l.a[0].a[0] is M.ineq else None
                if kind and l.a[0].a[1] is k:
                    out[kind].append((e, ((l.a[1], ZERO, S0.read(fld(l.a[0], '#size'))),)))
            return out
        R.sub(dimsum, en, 'the number of constraints at a knot point', parts, 'OutputDimension')
    for f in fns(R, 'NumConstraints', 0):
        en = R.run(None, fn=f, opaque=(PB + '::NumConstraints',), quiet=(PB + '::NumConstraints',))
        R.sub(dimsum, en, 'the total number of constraints', lambda evs: {'all': [(e, ((e.args[0][1], ZERO, iadd(M.n, ONE)),)) for e in evs if e.args]}, 'NumConstraints')


def initial(R, M):
    f = fns(R, 'SetInitialState', 1)
    if not f:
        raise Removed('SetInitialState', 'the setter is gone')
    en = R.run(None, fn=f[0])
    at = deref(S0.read(M.x0))
    v = en.final.read(at)
    R.ob('the initial state is the one given', v is S0.read(A0) or (None if unresolved(v) and v.op != 'init' else False), en.root, show(v)[:100])
    R.ob('the initial state keeps its place', en.final.read(M.x0) is S0.read(M.x0), en.root, 'a solver that shares it would miss the change')
    only(R, en, 'SetInitialState', [])
    g = fns(R, 'GetInitialState', 0)
    if g:
        r = R.run(None, fn=g[0]).ret
        ok = r is not None and (r is S0.read(M.x0) or r is at or r is addr(at) or r is S0.read(at))
        R.ob('the initial state can be read', ok or (None if r is None or unresolved(r) else False), g[0], show(r) if r is not None else '')


def sizes(R, M):
    for f in fns(R, 'Problem', 2):
        if f['T'][f['ps'][0]['t']].get('k') != 'int':
            continue
        en = R.run(None, fn=f)
        want = iadd(S0.read(A0), ONE)
        for lab, vec in (('cost functions', M.cost), ('dynamics', M.dyn), ('equality constraints', M.eq), ('inequality constraints', M.ineq)):
            n = en.final.read(fld(vec, '#size'))
            d = idiff(n, want)
            R.ob('a new problem has room for the %s of every knot point' % lab, d == 0 if d is not None else None, en.root, '%s entries' % show(n))
        nl = M.n.a[0]
        R.ob('a new problem has the horizon given', en.final.read(nl) is S0.read(A0), en.root, show(en.final.read(nl)))


def reading(R, M):
    for n, vec in (('GetCostFunction', M.cost), ('GetDynamics', M.dyn)):
        for f in fns(R, n, 1):
            en = R.run(None, fn=f)
            v = en.ret
            R.ob('%s gives the entry of the knot point asked for' % n, v is S0.read(idx(vec, S0.read(A0))) or (None if v is None or unresolved(v) else False), f, show(v)[:80] if v is not None else '')
    IDY = 'altro::problem::IdentityDynamics'
    for f in R.P.find(IDY + '::IdentityDynamics'):
        if len(f['ps']) != 2:
            continue
        en = R.run(None, fn=f)
        for i, g in enumerate(('StateDimension', 'ControlDimension')):
            gf = R.P.find(IDY + '::' + g)
            if gf:
                v = R.val(en, IDY + '::' + g, this=THIS, st=en.final)
                w = S0.read(raw('obj', 'arg%d' % i))
                R.ob('the terminal dynamics have the dimensions given', v is w or (None if v is None or unresolved(v) else False), f, '%s is %s' % (g, show(v) if v is not None else ''))
