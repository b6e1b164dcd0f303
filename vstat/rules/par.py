"""Work assignment, worker effects, task queue and thread pool (C13, C14, C29, C30)."""
from rulelib import *
from rules.kpf import *
from rules.ilqr import *
from rules.ilqr2 import *

POOL = 'altro::ThreadPool'
TSQ = 'altro::ThreadSafeQueue'


def strip_num(v):
    """drop integer conversions and rounding (the identity on integers)"""
    while v.op in ('i2f', 'cast') or v.op == 'app' and v.a[0] in ('round', 'floor', 'trunc', 'lround', 'rint', 'nearbyint', 'ceil', 'i2f'):
        v = v.a[1] if v.op == 'app' else v.a[0]
    return v


def cleanround(v):
    from terms import subst, walk
    m = {}
    for x in walk(v):
        y = strip_num(x)
        if y is not x:
            m[x.id] = y
    while True:
        w = subst(v, m)
        if w is v:
            return v
        v = w
        m = {}
        for x in walk(v):
            y = strip_num(x)
            if y is not x:
                m[x.id] = y


def nonneg(t):
    """syntactically non-negative (sizes, products of such, hardware_concurrency, asserted counts)"""
    k = cv(t)
    if k is not None:
        return k >= 0
    if t.op == 'ite':
        return all(nonneg(x) for _, x in cases(t))
    return None


def monotone(v, m, pos):
    """+1 / 0 when v is non-decreasing / constant in m; None when unknown; pos(t): t is known non-negative"""
    if not contains(v, lambda x: x is m):
        return 0
    if v is m:
        return 1
    if v.op == 'ite':
        # the condition must not depend on m
        rs = []
        for p, x in cases(v):
            if any(contains(a, lambda y: y is m) for a in atoms(p)):
                return None
            r = monotone(x, m, pos)
            if r is None:
                return None
            rs.append(r)
        return 1 if 1 in rs else 0
    if v.op == 'trunc' or v.op == 'i2f' or v.op == 'app' and v.a[0] in ('round', 'floor', 'trunc', 'lround', 'rint', 'nearbyint', 'ceil', 'i2f'):
        return monotone(v.a[-1], m, pos)
    if v.op == 'lin':
        out = 0
        for t, q in v.a[0]:
            r = monotone(t, m, pos)
            if r is None or r and q < 0:
                return None
            out = max(out, r)
        return out
    if v.op in ('*', 'i*') or v.op == 'app' and v.a[0] == '*':
        fs = v.a if v.op != 'app' else v.a[1:]
        var = [x for x in fs if contains(x, lambda y: y is m)]
        if len(var) != 1 or not all(pos(x) for x in fs if x is not var[0]):
            return None
        return monotone(var[0], m, pos)
    if v.op in ('/', 'idiv') or v.op == 'app' and v.a[0] in ('/', 'idiv'):
        a, b = v.a[-2], v.a[-1]
        if contains(b, lambda y: y is m) or not pos(b):
            return None
        return monotone(a, m, pos)
    if v.op == '+':
        rs = [monotone(x, m, pos) for x in v.a]
        return None if None in rs else max(rs)
    if v.op == 'app' and v.a[0] in ('min', 'max', 'std::min', 'std::max'):
        rs = [monotone(x, m, pos) for x in v.a[1:]]
        return None if None in rs else max(rs)
    return None


def pushes(en, vec):
    return [e for e in calls(en, 'push_back') if e.recv is vec]


def assignment(R):
    """the generated assignment starts at 0, ends after the terminal knot point and never steps back"""
    P = R.P
    st0 = engine.State()
    en = R.run(ILQR + '::GetTaskAssignment', inst=I62, quiet=STATS)
    W = R.loc(en, ILQR + '::GetTaskAssignment', st=st0, inst=I62)
    N = R.val(en, ILQR + '::NumSegments', st=st0, inst=I62)
    ps = pushes(en, W)
    other = [e for e in en.events if e.kind == 'store' and e.loc is not None and under(e.loc, W) and not any(e.seq < p.seq and e.loc is p.args[0][0] for p in ps)]
    if not ps:
        sized = [e for e in calls(en) if e.recv is W and e.name in ('resize', 'assign', 'insert')]
        R.ob('an assignment is generated', None if sized or other else False, en.root, 'nothing is written to the work assignment')
        return
    clr = [e for e in calls(en, 'clear') if e.recv is W and e.seq < ps[0].seq]
    first = ps[0]
    start_empty = bool(clr) or cv(first.st.read(raw('fld', W, '#size'))) == 0
    R.ob('a generated assignment replaces the old one', start_empty, first, 'new boundaries are appended to the old ones')
    pos = lambda t: True
    base = assumed(en)
    loops = [p for p in ps if p.loops]
    seq = []
    for p in ps:
        v = p.args[0][1]
        # a later store to the element just pushed (back() += 1)
        later = [e for e in other if not e.loops and not p.loops and p is ps[-1] and e.seq > p.seq]
        if later:
            v = later[-1].val
        if not p.loops:
            seq.append((p, None, None, v))
            continue
        L = innermost(en, p, v)
        if L is None or len(p.loops) != 1:
            Lk = en.loops[p.loops[-1]]
            acc = [m for m in walk(v) if m.op == 'mu' and m.a[0] == p.loops[-1]]
            fl = any(not any(m is iv for iv in Lk.ivs) for m in acc)
            R.ob('the boundaries are computed from the task index', None if not fl or not acc else False, p, 'the boundary %s accumulates a rounded step from task to task' % show(v)[:120])
            return
        m = L.main or L.main_only
        seq.append((p, L, m[0], v))
        R.ob('one boundary per task', always(en, p) or None, p, 'a boundary is skipped on some path')
        if L.lo is None or L.main is None:
            accs = [x for x in walk(L.cond) if x.op == 'mu' and x.a[0] == L.key and x is not m[0]] if L.cond is not None else []
            R.ob('the number of tasks does not depend on accumulated rounding', None if not accs else False, p, 'the loop ends on an accumulated value')
        r = monotone(v, m[0], pos)
        R.ob('boundaries never decrease', True if r is not None else None, p, 'boundary %s' % show(v)[:150])
    # first boundary
    p, L, m, v = seq[0]
    v0 = v if L is None else (subst(v, {m.id: L.lo}) if L.lo is not None else None)
    nf = NF(scalar=lambda t: True)
    if v0 is None:
        R.ob('the assignment starts at knot point 0', None, p, '')
    else:
        v0 = cleanround(v0)
        R.ob('the assignment starts at knot point 0', cv(v0) == 0 or nf.eq(v0, ZERO) or (None if unresolved_opt(v0) else False), p, 'starts at %s' % show(v0)[:150])
    # last boundary
    p, L, m, v = seq[-1]
    want = iadd(N, ONE)
    if L is None:
        R.ob('the assignment ends after the terminal knot point', idiff(v, want) == 0 if idiff(v, want) is not None else (None if unresolved_opt(v) else False), p, 'ends at %s' % show(v)[:150])
    else:
        fin = [e for e in other if not e.loops and e.seq > p.seq]
        vl = subst(v, {m.id: isub(L.hi, ONE)}) if L.hi is not None else None
        if fin:
            vl = fin[-1].val
        if vl is None:
            R.ob('the assignment ends after the terminal knot point', None, p, '')
        else:
            vl = cleanround(vl)
            ok = idiff(vl, want) == 0 or nf.eq(vl, want)
            R.ob('the assignment ends after the terminal knot point', True if ok else (None if unresolved_opt(vl) or vl.op == 'init' else False), p, 'ends at %s' % show(vl)[:150])
    # boundaries inside stay within the horizon
    for i, (p, L, m, v) in enumerate(seq):
        if L is None:
            continue
        hi = cleanround(subst(v, {m.id: L.hi})) if L.hi is not None else None
        if hi is None:
            R.ob('inner boundaries stay within the horizon', None, p, '')
            continue
        ok = None
        rs = []
        for q, x in cases(hi):
            if not sat(AND(q, p.pc)):
                continue
            d = idiff(x, N)
            rs.append(True if nf.eq(x, N) or d is not None and d <= 1 else None if d is None else False)
        R.ob('inner boundaries stay within the horizon', False if False in rs else None if None in rs else True, p, 'boundary reaches %s' % show(hi)[:200])
        # constant pushes before and after the loop join up
    for (p, L, m, v), (p2, L2, m2, v2) in zip(seq, seq[1:]):
        if L is not None and L2 is None:
            d = idiff(v2, N)
            R.ob('the last boundary is not before the inner ones', True if d is not None and d >= 0 else None if d is None else False, p2, 'last boundary %s' % show(v2)[:100])


@rule('C13', 'monotone-construction analysis of the work assignment; interval analysis of task creation, submission and of each task\'s work')
def c13(R):
    P = R.P
    st0 = engine.State()
    R.sub(assignment)
    en = solve(R)
    W = R.loc(en, ILQR + '::GetTaskAssignment', st=st0, inst=I62)
    N = R.val(en, ILQR + '::NumSegments', st=st0, inst=I62)
    z = ztraj(R, en)
    adds = [e for e in calls(en, 'AddTask') if facts.strip_targs(e.fn['q']) == POOL + '::AddTask']
    waits = [e for e in calls(en, 'Wait') if facts.strip_targs(e.fn['q']) == POOL + '::Wait']
    sw = calls(en, 'CalcActionValueExpansion')
    if not sw:
        raise Removed('a solve performs the backward sweep', 'no backward sweep in Solve', en.root)
    it = sw[0].loops[0]
    adds = [e for e in adds if it in e.loops]
    serial = [e for e in calls(en, 'UpdateExpansionsBlock') if it in e.loops]
    if not adds:
        R.ob('expansions are computed serially or by tasks', True if serial else None, en.root, 'no task is submitted')
        return
    V = None
    for e in adds:
        l, v = e.args[0]
        lam = v if v is not None and v.op == 'lam' else None
        if lam is not None:
            R.sub(tasks_from, en, [(e, lam)], W, N, z)
            continue
        if l is not None and l.op == 'idx':
            V = l.a[0]
            iv = interval(en, e, l.a[1])
            sz = e.st.read(raw('fld', V, '#size'))
            R.ob('every task is submitted', tiles([iv[:2]], ZERO, sz) if iv else None, e, 'tasks %s of %s submitted' % (tuple(map(show, iv[:2])) if iv else '?', show(sz)))
        else:
            R.ob('every task is submitted', None, e, show(v)[:100] if v is not None else '')
        R.ob('no task is skipped', always(en, e) , e, 'submission is skipped on some path')
    # awaited before use
    a = adds[-1]
    w = [e for e in waits if it in e.loops and a.seq < e.seq < sw[0].seq and not (set(a.loops[1:]) & set(e.loops))]
    Lr = en.loops.get(a.loops[-1]) if len(a.loops) > 1 else None
    h = Lr.s0.pc if Lr is not None and Lr.s0 is not None else a.pc
    try:
        nt = R.val(en, POOL + '::NumThreads', this=a.recv, st=Lr.s0 if Lr is not None and Lr.s0 is not None else a.st)
        rn = R.val(en, POOL + '::IsRunning', this=a.recv, st=Lr.s0 if Lr is not None and Lr.s0 is not None else a.st)
        some = OR(ilt(ZERO, nt), tobool(rn))
        ok = implies(h, some, assumed(en, a))
        R.ob('tasks are handed only to a pool that has threads', ok or (None if any(contains(t, lambda x: x.op in ('unk', 'undef', 'pat')) for t in atoms(h)) else False), a, 'submitted under %s' % show(h)[:300])
    except Exception:
        R.ob('tasks are handed only to a pool that has threads', None, a, '')
    R.ob('tasks are awaited before the expansions are used', bool(w) and implies(h, OR(*[e.pc for e in w]), assumed(en, w[-1])), w[0] if w else a, 'the backward sweep can start before the submitted tasks have finished')
    for e in serial + [x for x in cost_calls(en) if it in x.loops and a.seq < x.seq < sw[0].seq]:
        if w and a.seq < e.seq < w[0].seq:
            R.ob('nothing uses the expansions while tasks run', None, e, '')
    # tasks of the vector
    if V is not None:
        ps = pushes(en, V)
        if not ps:
            raise Removed('tasks are created from the assignment', 'the submitted tasks are never created', en.root)
        for p in ps:
            before_ = [e for e in calls(en, 'clear') if e.recv is V and e.seq < p.seq]
            R.ob('old tasks are dropped before new ones are created', bool(before_) and implies(reach(en, p), before_[-1].pc), p, 'tasks of an earlier assignment are kept and run again')
        R.sub(tasks_from, en, [(p, p.args[0][1]) for p in ps], W, N, z)
        ls = [e for e in calls(en, 'LaunchThreads') if facts.strip_targs(e.fn['q']) == POOL + '::LaunchThreads']
        for e in ls:
            L = en.loops.get(ps[-1].loops[-1]) if ps[-1].loops else None
            pp = L.s0.pc if L is not None and L.s0 is not None else ps[-1].pc
            R.ob('threads are launched only with tasks for them', implies(e.pc, pp, assumed(en, e)) and e.seq > ps[-1].seq or None, e, 'the pool is launched without creating the tasks')


def tasks_from(R, en, ps, W, N, z):
    """the closures created at ps run the per-knot-point work of consecutive blocks of the assignment"""
    ivs = []
    for p, lam in ps:
        if lam is None or lam.op != 'lam':
            R.ob('each task runs the expansion work of its block', None, p, show(lam)[:100] if lam is not None else '')
            continue
        en2 = run_closure(R, lam, quiet=STATS)
        g = [e for e in calls(en2) if e.extra == 'virtual' and e.name == 'Gradient']
        if not g:
            R.ob('each task runs the expansion work of its block', False, p, 'the task does not compute the expansion')
            continue
        k = knot_of_recv(g[0].recv)
        iv = interval(en2, g[0], k) if k is not None else None
        if iv is None:
            R.ob('each task runs the expansion work of its block', None, p, 'range of the task unknown')
            continue
        lo, hi = iv[:2]
        z2 = ztraj(R, en2)
        R.sub(block, en2, z2, lo, hi)
        # boundaries are consecutive elements of the assignment
        L = innermost(en, p)
        if L is None or L.main is None and L.main_only is None:
            R.ob('tasks cover consecutive blocks of the assignment', None, p, 'task loop not resolved')
            continue
        m = (L.main or L.main_only)[0]
        sz = p.st.read(raw('fld', W, '#size'))
        # index of the lower boundary
        cand = None
        for off in (-1, 0, 1):
            i = iadd(m, c(off))
            if p.st.read(idx(W, i)) is lo:
                cand = i
        if cand is None:
            R.ob('tasks start at a boundary of the assignment', None if unresolved_opt(lo) else False, p, 'task starts at %s' % show(lo)[:200])
            continue
        R.ob('tasks start at a boundary of the assignment', True, p, '')
        nxt = p.st.read(idx(W, iadd(cand, ONE)))
        R.ob('a task ends where the next one starts', hi is nxt, p, 'task covers [%s, %s)' % (show(lo)[:150], show(hi)[:150]))
        ii = interval(en, p, cand)
        want = isub(sz, ONE)
        R.ob('there is one task per block', tiles([ii[:2]], ZERO, want) if ii else None, p, 'blocks %s of %s' % (tuple(map(lambda t: show(t)[:150], ii[:2])) if ii else '?', show(want)[:150]))
        R.ob('no block is skipped', always(en, p), p, 'a task is not created on some path')


# ---------------------------------------------------------------- C14
FRESH = ('std::make_shared', 'std::make_unique')


def ptr_field_kind(R, l):
    """'unique', 'shared', 'raw' or None for the location that holds a pointer followed by an access path"""
    while l.op in ('idx', 'blk'):
        l = l.a[0]
    if l.op != 'fld':
        return None
    kinds = set()
    for r in R.P.recs.values():
        for f in r['fs']:
            if f['n'] == l.a[1]:
                t = r['T'][f['t']]
                s_ = t.get('s', '')
                if 'unique_ptr' in s_:
                    kinds.add('unique')
                elif 'shared_ptr' in s_ or 'weak_ptr' in s_:
                    kinds.add('shared')
                elif t['k'] == 'ptr' or t.get('ref'):
                    kinds.add('raw')
    return kinds.pop() if len(kinds) == 1 else None


def deref_holders(l):
    """(root, [locations of the pointers followed on the way])"""
    hs = []
    while True:
        if l.op in ('fld', 'idx', 'blk'):
            l = l.a[0]
        elif l.op == 'deref':
            p = l.a[0]
            if p.op in ('init', 'mu', 'hv') and isinstance(p.a[-1], tm.T):
                hs.append(p.a[-1])
                l = p.a[-1]
            else:
                return p, hs
        else:
            return l, hs


def writes(en):
    """(location, event, how) of everything the analysed code may write, including through opaque callees"""
    for e in en.events:
        if e.kind == 'store' and e.loc is not None:
            yield e.loc, e, 'store'
        elif e.kind == 'call' and e.extra != 'inlined' and e.fn is not None:
            for a, m in zip(e.args or (), e.mut or ()):
                if m and a[0] is not None:
                    yield a[0], e, 'argument'
            if e.recv is not None and e.extra != 'virtual' and not e.fn.get('cst') and e.fn.get('cls') is None:
                # standard library member on library state
                n = e.name
                if n in ('push_back', 'emplace_back', 'clear', 'resize', 'assign', 'insert', 'erase', 'pop_back', 'swap', 'reset', 'map[]', 'emplace'):
                    yield e.recv, e, n


def flat_locs(l):
    return [x for _, x in cases(l)] if l.op == 'ite' else [l]


@rule('C14', 'write-effect analysis of every worker task and of every library callback it runs')
def c14(R):
    P = R.P
    st0 = engine.State()
    en = solve(R)
    z = ztraj(R, en)
    W = R.loc(en, ILQR + '::GetTaskAssignment', st=st0, inst=I62)
    adds = [e for e in calls(en, 'AddTask') if facts.strip_targs(e.fn['q']) == POOL + '::AddTask']
    lams = []
    for e in adds:
        l, v = e.args[0]
        if v is not None and v.op == 'lam':
            lams.append((e, v))
        elif l is not None and l.op == 'idx':
            lams += [(p, p.args[0][1]) for p in pushes(en, l.a[0])]
    if not lams:
        R.ob('tasks are found', None, en.root, '')
        return
    seen = set()
    for p, lam in lams:
        if lam.op != 'lam' or lam.a[0] in seen:
            continue
        seen.add(lam.a[0])
        for cp in lam.a[1]:
            R.ob('a task captures its range by value', cp[0] == 'this' or cp[1] == 'val', p, 'captures a variable that later tasks overwrite')
        en2 = run_closure(R, lam, timers=True)
        g = [e for e in calls(en2) if e.extra == 'virtual' and e.name in ('Gradient', 'Jacobian')]
        ks = [knot_of_recv(e.recv) for e in g]
        k = next((x for x in ks if x is not None), None)
        costs = R.loc(en2, ILQR + '::GetCosts', st=st0, inst=I62)
        for loc, e, how in writes(en2):
            for l in flat_locs(loc):
                root, hs = deref_holders(l)
                if root.op == 'var':
                    continue
                if root.op == 'glob':
                    R.ob('tasks write no global or static data', False, e, 'writes %s' % show(l))
                    continue
                own = False
                b = l
                while True:
                    if b.op == 'idx' and len(b.a) == 2 and k is not None and b.a[1] is k:
                        own = True
                    if b.op in ('fld', 'idx', 'blk'):
                        b = b.a[0]
                    elif b.op == 'deref' and b.a[0].op in ('init', 'mu', 'hv') and isinstance(b.a[0].a[-1], tm.T):
                        b = b.a[0].a[-1]
                    else:
                        break
                if root.op != 'obj' and not own:
                    R.ob('a task writes only its own knot points', None if unresolved_opt(l) else False, e, 'writes %s' % show(l)[:200])
                    continue
                R.ob('a task writes only its own knot points', own, e, '%s to %s, which other tasks share' % (how, show(l)[:200]))
        for e in calls(en2):
            if e.extra == 'virtual' and e.recv is not None:
                kk = knot_of_recv(e.recv)
                R.ob('a task calls only the functions of its own knot points', kk is k if kk is not None and k is not None else None, e, 'calls %s of %s' % (e.name, show(e.recv)[:150]))
    # library callbacks run by the tasks
    n = 0
    made = owned_vectors(R)
    for f in callbacks(P):
        try:
            e3 = R.run(None, fn=f, timers=True)
        except facts.ToolError:
            continue
        n += 1
        cls = facts.strip_targs(f.get('cls') or '')
        for loc, e, how in writes(e3):
            for l in flat_locs(loc):
                root, hs = deref_holders(l)
                if root.op == 'var':
                    continue
                if root.op == 'glob':
                    R.ob('callbacks write no global or static data', False, e, '%s writes %s' % (f['q'], show(l)))
                    continue
                if root.op == 'obj' and root.a[0] != 'this':
                    continue    # an output argument
                bad = None
                for h in hs:
                    kd = ptr_field_kind(R, h)
                    hb = h
                    while hb.op in ('idx', 'blk'):
                        hb = hb.a[0]
                    if kd == 'shared' and not (hb.op == 'fld' and hb.a[1] in made):
                        bad = h
                    elif kd == 'raw':
                        bad = h
                own_scratch = cls in OWNERS
                R.ob('a callback writes no object shared between knot points', bad is None, e, '%s writes %s, reached through the shared pointer %s' % (f['q'], show(l)[:150], show(bad) if bad is not None else ''))
                if not hs and not own_scratch and root.op == 'obj':
                    R.ob('a shared function object is not written by its own evaluation', False, e, '%s writes its member %s' % (f['q'], show(l)[:150]))
    R.notes.append('%d callbacks analysed' % n)
    R.ob('library callbacks are analysed', n > 0, en.root, '')


# classes documented to own scratch memory per knot point
OWNERS = ('altro::augmented_lagrangian::ALCost', 'altro::problem::DiscretizedModel')


def callbacks(P):
    out = []
    for f in P.fns.values():
        if f.get('n') in ('Evaluate', 'Gradient', 'Jacobian', 'Hessian', 'operator()') and f.get('b') and f.get('cls'):
            if any(x == 'altro::FunctionBase' for x in bases(P, f['cls'])):
                if '/altro/' in f['f'] or '/examples/' in f['f']:
                    out.append(f)
    return sorted(out, key=lambda f: f['key'])


def bases(P, cls):
    out, todo = set(), [cls]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        r = P.recs.get(x)
        if r:
            todo += [facts.strip_targs(b) if b not in P.recs else b for b in r.get('bs', [])]
    return out


def owned_vectors(R):
    """members of the augmented cost that hold objects made for that cost alone: vectors filled only with make_shared results"""
    P = R.P
    out = set()
    ctor = [f for f in P.fns.values() if f.get('ctor') and facts.strip_targs(f.get('cls') or '') == 'altro::augmented_lagrangian::ALCost' and len(f['ps']) == 2 and f.get('b')]
    for f in ctor[:4]:
        en = R.run(None, fn=f)
        by = {}
        for e in calls(en, 'push_back'):
            if e.recv is not None and e.recv.op == 'fld':
                v = e.args[0][1]
                by.setdefault(e.recv.a[1], []).append(v.op == 'addr' and v.a[0].op in ('new', 'heap') or v.op == 'new' or contains(v, lambda x: x.op == 'new'))
        for k, v in by.items():
            if all(v):
                out.add(k)
    return out
