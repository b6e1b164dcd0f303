"""Lock discipline of the task queue and life cycle of the thread pool (C29, C30)."""
from rulelib import *
from rules.kpf import *
from rules.ilqr import *
from rules.ilqr2 import *
from rules.par import *
from rules.life import *

S0 = engine.State()
QUEUE = 'altro::ThreadSafeQueue'


def syncs(t):
    s = t.get('s', '')
    return any(z in s for z in ('std::mutex', 'recursive_mutex', 'timed_mutex', 'shared_mutex', 'condition_variable'))


def is_mutex(t):
    return 'mutex' in t.get('s', '')


def is_atomic(t):
    return 'std::atomic' in t.get('s', '')


def inner(r, x):
    """location of the object a field holds (behind its owning pointer)"""
    l = fld(THIS, x['n'])
    s = ftype(r, x)['s']
    return deref(raw('init', l)) if s.startswith('std::unique_ptr') or s.startswith('std::shared_ptr') or s.endswith('*') else l


def roots_of(l):
    """locations whose value l was reached through"""
    out = set()
    for x in walk(l):
        if x.op in ('init', 'mu') and isinstance(x.a[-1], T):
            out.add(x.a[-1])
        if x.op == 'mu':
            for a in x.a:
                if isinstance(a, T):
                    out.add(a)
    return out


def ptreq(a, b):
    return eq(a, b, False)


@rule('C29', 'lockset and lock-order analysis of every queue operation, with functional summaries of each critical section')
def c29(R):
    P = R.P
    r = P.rec(QUEUE)
    fs = {x['n']: x for x in r['fs']}
    mutexes = [x for x in r['fs'] if is_mutex(ftype(r, x))]
    held = {x['n']: fld(inner(r, x), '#held') for x in mutexes}
    if not mutexes:
        raise Removed('the queue protects its links with locks', 'no mutex left in %s' % r['key'])
    node = None
    shared = [x for x in r['fs'] if not syncs(ftype(r, x)) and not is_atomic(ftype(r, x))]
    atom = [x for x in r['fs'] if is_atomic(ftype(r, x))]
    ops = [m for m in r['ms'] if m['acc'] == 0 and not m.get('ctor') and not m.get('ca') and not m.get('ma') and m['n'] != '~' + r['n'] and m['key'] in P.fns]
    runs = {}

    def setup(en, fr):
        en.watch = lambda l, e: True
        for h in held.values():
            en.st.write(h, FALSE)
    for m in sorted(ops, key=lambda m: m['key']):
        if P.fns[m['key']].get('b'):
            runs[m['n']] = R.run(None, fn=P.fns[m['key']], setup=setup)
    names = {h: n for n, h in held.items()}

    def locks(ev):
        return {n for n, h in held.items() if implies(ev.pc, tobool(ev.st.read(h)))}
    # ---- locksets of the shared members
    acc = {x['n']: [] for x in r['fs']}
    nodeacc = []
    for n, en in sorted(runs.items()):
        for ev in en.events:
            if ev.kind != 'access':
                continue
            l = ev.loc
            if l.op == 'fld' and l.a[0] is THIS and l.a[1] in acc:
                acc[l.a[1]].append((n, ev))
            elif l.op == 'fld' and l.a[0].op == 'deref':
                nodeacc.append((n, ev))
    guard = {}
    for x in shared:
        a = acc[x['n']]
        written = any(ev.kind == 'store' and ev.loc is fld(THIS, x['n']) for en in runs.values() for ev in en.events)
        if not a or not written:
            continue
        ls = [(n, ev, locks(ev)) for n, ev in a]
        common = set.intersection(*[s for _, _, s in ls])
        cnt = {}
        for _, _, s in ls:
            for z in s:
                cnt[z] = cnt.get(z, 0) + 1
        g = sorted(common) or sorted(cnt, key=lambda z: (-cnt[z], z))
        best = g[0] if g else None
        guard[x['n']] = set(common) or ({best} if best else set())
        for n, ev, s in ls:
            ok = bool(guard[x['n']] & s)
            R.ob('every access to %s holds its lock' % ('the head' if 'unique_ptr' in ftype(r, x)['s'] else 'the tail' if ftype(r, x)['s'].endswith('*') else 'a shared member'),
                 ok, ev, '%s accessed in %s holding %s, other accesses hold %s' % (x['n'], n, sorted(s) or 'no lock', best))
    for x in r['fs']:
        if is_mutex(ftype(r, x)) or x['n'] in guard:
            continue
        if any(ev.kind == 'store' and ev.loc is fld(THIS, x['n']) for en in runs.values() for ev in en.events):
            R.ob('unlocked members are not replaced by queue operations', False, r, x['n'])
    # ---- nodes reached through the links
    for n, ev in nodeacc:
        p = ev.loc.a[0].a[0]
        via = [x for x in guard if any(z is fld(THIS, x) for z in roots_of(p))]
        if p.op == 'new':
            via = [x for x in guard if ev.st.read(fld(THIS, x)) is p]
            if not via:
                continue
        s = locks(ev)
        for x in via:
            # a node that was unlinked before is private
            if p.op != 'new' and 'unique_ptr' in ftype(r, fs[x])['s'] and all(v is not p for _, v in cases(ev.st.read(fld(THIS, x)))):
                continue
            R.ob('a linked node is only accessed under the lock of the link it was reached through', bool(guard[x] & s), ev,
                 '%s of a node reached through %s in %s holding %s' % (ev.loc.a[1], x, n, sorted(s) or 'no lock'))
    # ---- lock order, no self-deadlock, everything released
    edges = {}
    nl = 0
    for n, en in sorted(runs.items()):
        for ev in en.events:
            if ev.kind == 'lock':
                nl += 1
                hl = fld(ev.recv, '#held')
                R.ob('an operation never takes a lock it holds', not sat(AND(ev.pc, tobool(ev.val))), ev, 'in ' + n)
                for m, h in held.items():
                    if h is not hl and sat(AND(ev.pc, tobool(ev.st.read(h)))):
                        edges.setdefault((m, names.get(hl, show(ev.recv))), (n, ev))
            if ev.kind == 'unlock':
                R.ob('only held locks are released', implies(ev.pc, tobool(ev.val)), ev, 'in ' + n)
        if en.final is not None:
            for m, h in held.items():
                R.ob('every lock is released when the operation returns', not sat(AND(en.final.pc, tobool(en.final.read(h)))), en.root, '%s after %s' % (m, n))
    for (a, b), (n, ev) in sorted(edges.items()):
        seen, todo = set(), [b]
        while todo:
            z = todo.pop()
            if z in seen:
                continue
            seen.add(z)
            todo += [y for x, y in edges if x == z]
        R.ob('locks are always taken in one order', a not in seen, ev, '%s is taken while holding %s in %s, elsewhere the other way round' % (b, a, n))
    # head before tail
    hd = [x['n'] for x in shared if 'unique_ptr' in ftype(r, x)['s']]
    tl = [x['n'] for x in shared if ftype(r, x)['s'].endswith('*')]
    if len(hd) != 1 or len(tl) != 1 or len(atom) > 1:
        R.ob('the queue has one head, one tail and one counter', None, r, 'members: %s' % [x['n'] for x in r['fs']])
        return
    hd, tl = hd[0], tl[0]
    HEAD, TAIL = fld(THIS, hd), fld(THIS, tl)
    h0, t0 = raw('init', HEAD), raw('init', TAIL)
    if guard.get(hd) and guard.get(tl) and not guard[hd] & guard[tl]:
        for (a, b), (n, ev) in sorted(edges.items()):
            if a in guard[tl] and b in guard[hd]:
                R.ob('the head lock is taken before the tail lock', False, ev, n)
    # ---- the counter moves with the links, under the lock of that end
    cnt = inner(r, atom[0]) if atom else None
    if cnt is None:
        raise Removed('the queue counts its elements atomically', 'no atomic counter left in %s' % r['key'])
    for n, en in sorted(runs.items()):
        pops = [ev for ev in en.events if ev.kind == 'store' and ev.loc is HEAD]
        adds = [ev for ev in en.events if ev.kind == 'store' and ev.loc is TAIL]
        dec = [ev for ev in en.events if ev.kind == 'store' and ev.loc is cnt]
        for kind, links, x, d in (('removed', pops, hd, -1), ('added', adds, tl, 1)):
            mine = [ev for ev in dec if idiff(ev.val, (ev.old if ev.old is not None else ev.st.read(cnt))) == d]
            for ev in links:
                m = [z for z in mine if z.loops == ev.loops and equiv(z.pc, ev.pc)]
                R.ob('an element %s is counted once' % kind, len(m) == 1 if len(links) == 1 else len(mine) == len(links) and len(m) > 0, ev, n)
            for z in mine:
                R.ob('the counter moves under the lock of its end', bool(guard.get(x, set()) & locks(z)), z, n)
                R.ob('the counter moves only with an element', any(z.loops == ev.loops and equiv(z.pc, ev.pc) for ev in links), z, n)
        for z in dec:
            dd = idiff(z.val, (z.old if z.old is not None else z.st.read(cnt)))
            if dd not in (-1, 1):
                R.ob('the counter moves by one element', None if dd is None and unresolved(z.val) else False, z, '%s by %s' % (n, show(z.val)))
        # a removal is decided by a comparison with the tail made while the head lock is held
        for ev in pops:
            g = guard.get(hd, set())
            before = [z for z in en.events if z.kind == 'access' and z.loc is TAIL and z.seq < ev.seq and sat(AND(z.pc, ev.pc))]
            ok = bool(before) and not (h0 is t0)
            ok = ok and bool(g & locks(before[-1]))
            if ok:
                ok = not any(z.kind == 'unlock' and before[-1].seq < z.seq < ev.seq and names.get(fld(z.recv, '#held')) in g and sat(AND(z.pc, ev.pc)) for z in en.events)
            R.ob('emptiness is tested in the critical section that removes the element', ok, ev, n)
            v = ev.val
            if v.op == 'mu':
                v = raw('init', next(a for a in reversed(v.a) if isinstance(a, T)))
            old = v.a[-1].a[0].a[0] if v.op == 'init' and v.a[-1].op == 'fld' and v.a[-1].a[0].op == 'deref' else None
            if old is None or not (old is h0 or old.op == 'mu' and any(a is HEAD for a in walk(old))):
                R.ob('the successor of the removed node becomes the head', None if unresolved(v) and v.op != 'new' else False, ev, show(v)[:200])
                continue
            ok = not sat(AND(in_loops(en, ev), ptreq(old, ev.st.read(TAIL))))
            if not ok and ev.loops and old is not h0:
                # by induction over the iterations of the loop
                L = en.loops[ev.loops[-1]]
                ok = all(st is None or not sat(AND(st.pc, ptreq(st.read(HEAD), st.read(TAIL)))) for st in (L.s0, L.back))
            R.ob('an element is removed only from a non-empty queue', ok, ev, n)
            nx = [x['n'] for x in node_fields(P, r) if 'unique_ptr' in x['s']]
            R.ob('the successor of the removed node becomes the head', v.a[-1].a[1] in nx, ev, '%s: %s' % (n, show(v)[:100]))
    R.sub(functional, P, r, runs, HEAD, TAIL, cnt, h0, t0)


def in_loops(en, ev):
    """path condition of ev with the conditions of the iterations it is in"""
    c = ev.pc
    for k in ev.loops:
        L = en.loops[k]
        if L.cond is not None and not L.do:
            c = AND(c, tobool(L.cond))
    return c


def node_fields(P, r):
    for k, q in P.recs.items():
        if k.startswith(r['key'] + '::') and q['fs']:
            return [{'n': x['n'], 's': q['T'][x['t']]['s']} for x in q['fs']]
    return []


def by_case(v, c, en):
    """values v can have when c holds"""
    return [x for p, x in cases(v) if sat(AND(p, c, en.final.pc))]


def functional(R, P, r, runs, HEAD, TAIL, cnt, h0, t0):
    nf = node_fields(P, r)
    nx = next((x['n'] for x in nf if 'unique_ptr' in x['s']), None)
    da = next((x['n'] for x in nf if 'unique_ptr' not in x['s']), None)
    empty = ptreq(h0, t0)
    some = AND(NOT(empty), ptrbool(h0))
    none = AND(empty, ptrbool(h0))
    c0 = raw('init', cnt)
    pushes = [n for n, en in runs.items() if any(ev.kind == 'store' and ev.loc is TAIL for ev in en.events)]
    pops = [n for n, en in runs.items() if len(en.root['ps']) == 1 and any(ev.kind == 'store' and ev.loc is HEAD for ev in en.events)]
    if not pushes:
        raise Removed('elements can be added', 'no operation links a new tail')
    if not pops:
        raise Removed('elements can be removed', 'no operation removes the head')
    for n in pushes:
        en = runs[n]
        f = en.final
        new = f.read(TAIL)
        at = en.root
        R.ob('an added element gets a fresh tail node linked behind the old one', new.op == 'new' and f.read(fld(deref(t0), nx)) is new, at,
             'tail %s, link %s' % (show(new)[:100], show(f.read(fld(deref(t0), nx)))[:100]))
        d = f.read(fld(deref(t0), da))
        got = f.read(deref(d)) if 'ptr' in next(x['s'] for x in nf if x['n'] == da) else d
        want = S0.read(raw('obj', 'arg0'))
        R.ob('the added element is stored in the old tail node', True if got is want or contains(got, lambda x: x is want) else None if unresolved(got) else False, at, show(got)[:200])
        if new.op == 'new':
            for x in (nx, da):
                v = f.read(fld(deref(new), x))
                R.ob('the fresh tail node is empty', True if v is NULL or v.op == 'sel' and v.a[0].op in ('app', 'dfltobj') and 'dfltobj' in show(v.a[0]) else None if unresolved(v) else False, at, show(v)[:100])
        R.ob('the head is untouched by adding', f.read(HEAD) is h0, at)
    for n in pops:
        en = runs[n]
        f, at = en.final, en.root
        if en.ret is None:
            R.ob('removal reports whether an element was removed', False, at)
            continue
        b = tobool(en.ret)
        R.ob('removal reports success exactly when the queue was not empty', implies(some, b) and implies(none, NOT(b)), at, show(en.ret)[:200])
        hv_, sv, av = f.read(HEAD), f.read(cnt), f.read(raw('obj', 'arg0'))
        a0 = S0.read(raw('obj', 'arg0'))
        want = raw('init', deref(raw('init', fld(deref(h0), da)))) if 'ptr' in next(x['s'] for x in nf if x['n'] == da) else raw('init', fld(deref(h0), da))
        R.ob('a successful removal hands out the oldest element', all(x is want or contains(x, lambda y: y is want) for x in by_case(av, some, en)), at, show(av)[:200])
        R.ob('an unsuccessful removal changes nothing', all(x is a0 for x in by_case(av, none, en)) and all(x is h0 for x in by_case(hv_, none, en)) and
             all(x is c0 for x in by_case(sv, none, en)), at)
    for n, en in runs.items():
        if en.root['n'] == 'IsEmpty' and en.ret is not None:
            R.ob('emptiness is the head being the tail', equiv(tobool(en.ret), empty), en.root, show(en.ret)[:200])
        if en.root['n'] == 'Size' and en.ret is not None:
            R.ob('the size is the counter', en.ret is c0, en.root, show(en.ret)[:200])
        if en.root['n'] == 'Clear' and en.final is not None:
            R.ob('clearing stops only when the queue is empty', implies(en.final.pc, ptreq(en.final.read(HEAD), en.final.read(TAIL))) or None if unresolved(en.final.read(HEAD)) else
                 implies(en.final.pc, ptreq(en.final.read(HEAD), en.final.read(TAIL))), en.root, show(en.final.read(HEAD))[:100])
            R.ob('clearing never stops early', not [L for L in en.loops.values() if L.cond is None and False], en.root)


# ------------------------------------------------------------------ thread pool
ELEM_SAFE = ('joinable', 'join', 'size', 'empty', 'push_back', 'emplace_back', 'reserve', 'begin', 'end', 'get_id', 'back', 'front', 'at', 'operator[]',
             'native_handle', 'wait_for', 'wait', 'wait_until', 'valid')


def fieldof(R, r, pred, what):
    x = [y for y in r['fs'] if pred(ftype(r, y)['s'])]
    if len(x) != 1:
        raise Removed('the thread pool keeps %s' % what, '%d members of that kind in %s' % (len(x), r['key']))
    return fld(THIS, x[0]['n'])


def elem(l, base):
    """index of the element of base that l denotes"""
    return l.a[1] if l is not None and l.op == 'idx' and l.a[0] is base else None


def joins_all(R, en, name, base, at, given=TRUE, before=None):
    """every joinable element of base is joined (in the part of the run where `given` holds)"""
    size = None
    js = [ev for ev in calls(en, 'join') if elem(ev.recv, base) is not None and sat(AND(ev.pc, given)) and (before is None or ev.seq < before)]
    if not js:
        return R.ob(name, False, at, 'no join of the elements of %s' % show(base))
    ok = None
    why = ''
    for ev in js:
        L = innermost(en, ev, elem(ev.recv, base))
        if L is None or L.lo is None:
            why = 'range of the join unknown'
            continue
        n = L.s0.read(fld(base, '#size'))
        iv = interval(en, ev, elem(ev.recv, base))
        t = tiles([iv[:2]], ZERO, n) if iv else None
        if t is not True:
            ok, why = (False if t is False else ok), 'joins [%s, %s) of %s' % (show(iv[0]), show(iv[1]), show(n)) if iv else ''
            continue
        # skipped only when not joinable
        cond = AND(iteration(L), given)
        skip = AND(cond, NOT(ev.pc))
        only = not sat(skip) or joinable_only(skip)
        if not only or not full(en, L, given):
            ok, why = False, 'some joinable thread is skipped'
            continue
        if not implies(given, L.s0.pc, assumed(en, ev)):
            ok, why = False, 'the joins are skipped on some path'
            continue
        ok = True
        break
    return R.ob(name, ok, js[0], why)


def joinable_only(skip):
    """the iteration is skipped only because the thread is not joinable"""
    js = [a for a in atoms(skip) if 'joinable' in show(a)]
    g = skip
    for a in js:
        g = AND(g, mk(a, TRUE, FALSE))
    return not sat(g)


@rule('C30', 'life-cycle analysis of threads, futures and tasks over every path of the pool, including failure paths')
def c30(R):
    P = R.P
    r = P.rec(POOL_)
    threads = fieldof(R, r, lambda s: s.startswith('std::vector<std::thread'), 'its threads')
    futures = fieldof(R, r, lambda s: s.startswith('std::vector<std::future'), 'the completion handles')
    queue = fieldof(R, r, lambda s: 'ThreadSafeQueue' in s, 'the queue of tasks')
    opq = (QUEUE + '::Push', QUEUE + '::TryPop', QUEUE + '::Clear')
    meths = {k: f for k, f in P.fns.items() if f.get('cls') == r['key'] and f.get('b')}
    runs = {}
    for k, f in sorted(meths.items()):
        runs[k] = R.run(None, fn=f, opaque=opq)
    probe = R.run(None, fn=P.fn(POOL_ + '::IsRunning', 0))
    flagv = probe.ret
    flag = None
    if flagv is not None:
        ls = [x.a[-1] for x in walk(flagv) if x.op == 'init' and x.a[-1].op == 'fld' and x.a[-1].a[0] is THIS]
        flag = ls[0] if len(ls) == 1 else None
    if flag is None:
        R.ob('the pool knows whether it is running', None, probe.root, show(flagv)[:200] if flagv is not None else '')
        return
    ft = next(ftype(r, x) for x in r['fs'] if x['n'] == flag.a[1])
    R.ob('the running flag is read and written atomically', is_atomic(ft), r, ft['s'])
    running = tobool(flagv)

    special = lambda f: f.get('ctor') or f['n'] == 'operator='
    dtor = [f for f in meths.values() if f['n'].startswith('~')]
    if not dtor:
        raise Removed('the pool joins its threads when it is destroyed', 'no destructor left in %s' % r['key'])
    for k, f in sorted(meths.items()):
        en = runs[k]
        if f.get('ctor'):
            continue
        # -------- the flag goes down only to join, and the threads are dropped only when joined
        downs = [ev for ev in en.events if ev.kind == 'store' and ev.loc is flag and not sat(AND(ev.pc, tobool(ev.val))) and
                 sat(AND(ev.pc, tobool(ev.st.read(flag))))]
        pushes = [ev for ev in en.events if ev.kind == 'call' and ev.recv is threads and ev.name in ('push_back', 'emplace_back')]
        for ev in downs:
            R.sub(joins_all, en, 'stopping joins every thread', threads, ev, given=ev.pc)
            first = [j for j in calls(en, 'join') if elem(j.recv, threads) is not None and sat(AND(j.pc, ev.pc))]
            R.ob('threads are told to stop before they are joined', not first or min(j.seq for j in first) > ev.seq, ev)
        if not downs:
            for j in calls(en, 'join'):
                if elem(j.recv, threads) is not None:
                    R.ob('threads are told to stop before they are joined', not sat(AND(j.pc, running)) or implies(j.pc, NOT(tobool(j.st.read(flag)))), j)
        for ev in en.events:
            drop = ev.kind == 'call' and ev.recv is threads and ev.name in ('clear', 'resize', 'assign', 'erase', 'pop_back', 'swap', 'shrink_to_fit') or \
                ev.kind == 'store' and ev.loc is threads
            if not drop or ev.name == 'shrink_to_fit':
                continue
            # dropped while the pool may still run: every thread must have been joined on that path
            went = [d for d in downs if d.seq < ev.seq and implies(ev.pc, d.pc)]
            idle = implies(ev.pc, NOT(running), assumed(en, ev))
            safe = idle and not any(p.seq < ev.seq and sat(AND(p.pc, ev.pc)) for p in pushes)
            down_else = idle or any(d.seq < ev.seq and implies(AND(ev.pc, running), d.pc, assumed(en, ev)) for d in downs)
            if safe or not went and down_else and not any(p.seq < ev.seq for p in pushes):
                R.ob('threads are dropped only when none is running', True, ev, f['n'])
            elif went:
                R.sub(joins_all, en, 'threads are dropped only when joined', threads, ev, given=ev.pc, before=ev.seq)
            else:
                R.ob('threads are dropped only when joined', False, ev, '%s drops threads that may still run' % f['n'])
        # -------- launching
        if pushes:
            for ev in pushes:
                R.ob('the pool counts as running before its first thread starts', implies(ev.pc, tobool(ev.st.read(flag))), ev, f['n'])
                up = [d for d in en.events if d.kind == 'store' and d.loc is flag and d.seq < ev.seq]
                R.ob('only an idle pool is launched', implies(ev.pc, NOT(running), assumed(en, ev)), ev)
                R.ob('a failed launch joins the threads already started', (ev.tr or 0) > 0, ev, 'starting a thread may throw and nothing catches it')
                body = ev.args[0][1] if ev.args else None
                R.sub(launched, P, en, ev, body, r)
                L = innermost(en, ev)
                if L is not None and L.lo is not None:
                    n = raw('init', raw('obj', 'arg0'))
                    covers(R, en, 'as many threads start as asked for', [(ev, ((L.main[0], ZERO, n),))], None, ev, given=NOT(running)) if L.main else \
                        R.ob('as many threads start as asked for', None, ev)
                else:
                    R.ob('as many threads start as asked for', None, ev)
            for ev in en.events:
                if ev.kind == 'catch':
                    R.sub(joins_all, en, 'a failed launch joins the threads already started', threads, ev, given=ev.pc)
                    R.ob('a failed launch is reported', any(t.kind == 'throw' and implies(ev.pc, t.pc) for t in en.events) or
                         en.final is None or not sat(AND(en.final.pc, ev.pc)), ev)
        # -------- tasks and handles are never dropped
        for ev in en.events:
            if special(f):
                break
            if ev.kind == 'call' and facts.strip_targs(ev.fn['q'] if ev.fn else '') == QUEUE + '::Clear' or \
                    ev.kind == 'call' and ev.recv is queue and ev.name not in ('Push', 'TryPop', 'Size', 'IsEmpty', 'operator=', 'Clear'):
                R.ob('queued tasks are never discarded', False, ev, f['n'])
    for f in dtor:
        en = runs[f['key']]
        R.sub(joins_all, en, 'destroying a running pool joins its threads', threads, f, given=running)
    for f in meths.values():
        if f.get('ma') or f['n'] == 'operator=':
            R.sub(joins_all, runs[f['key']], 'assigning to a running pool joins its threads', threads, f, given=running)
    if not any(ev.kind == 'call' and ev.recv is threads and ev.name in ('push_back', 'emplace_back') for en in runs.values() for ev in en.events):
        raise Removed('the pool starts threads', 'no method adds a thread')
    R.sub(submit, P, r, runs, meths, queue, futures)
    R.sub(waiting, P, r, runs, meths, futures, running)
    R.sub(worker, P, r, runs, meths, queue, flag)


POOL_ = 'altro::ThreadPool'


def launched(R, P, en, ev, body, r):
    """the closure a thread runs is the worker of this pool"""
    if body is None or body.op != 'lam':
        R.ob('every thread runs the worker of this pool', None, ev, show(body)[:150] if body is not None else '')
        return
    c = run_closure(R, body, opaque=(QUEUE + '::TryPop',))
    for x in calls(c):
        if facts.strip_targs(x.fn['q']) == QUEUE + '::TryPop' and x.loops:
            s0 = c.loops[x.loops[0]].s0
            R.ob('every thread runs the worker of this pool', all(implies(cond_up(s0.pc), s0.pc, assumed(c)) for _ in (1,)), ev, 'skipped on some path')
    pops = [x for x in calls(c) if facts.strip_targs(x.fn['q']) == QUEUE + '::TryPop']
    R.ob('every thread runs the worker of this pool', bool(pops), ev, 'the thread never takes a task')
    for x in pops:
        R.ob('every thread serves this pool\'s queue', under(x.recv, THIS), ev, show(x.recv)[:100])


def cond_up(t):
    """t's own condition on the running flag"""
    g = TRUE
    for a in atoms(t):
        if contains(a, lambda x: x.op == 'init' and x.a[-1].op == 'fld' and x.a[-1].a[0] is THIS):
            g = AND(g, mk(a, TRUE, FALSE))
    return g


def submit(R, P, r, runs, meths, queue, futures):
    n = 0
    for k, en in sorted(runs.items()):
        pt = [ev for ev in en.events if ev.kind == 'ctor' and ev.name == 'std::packaged_task' and ev.fn and not ev.fn.get('mc')]
        q = [ev for ev in calls(en) if facts.strip_targs(ev.fn['q']) == QUEUE + '::Push']
        made = [ev for ev in pt if any(a[1] is not None and contains(a[1], lambda x: x is raw('init', raw('obj', 'arg0'))) or a[1] is raw('init', raw('obj', 'arg0')) for a in ev.args)]
        if not q and not (meths[k]['n'] == 'AddTask'):
            continue
        n += 1
        at = meths[k]
        gf = calls(en, 'get_future')
        fs = [ev for ev in en.events if ev.kind == 'call' and ev.recv is futures and ev.name in ('push_back', 'emplace_back')]
        R.ob('a submitted task is queued exactly once', len(q) == 1 and not q[0].loops and implies(TRUE, q[0].pc, assumed(en)), q[0] if q else at, '%d pushes' % len(q))
        R.ob('the completion handle of a submitted task is kept', len(fs) == 1 and not fs[0].loops and implies(TRUE, fs[0].pc, assumed(en)), fs[0] if fs else at, '%d handles' % len(fs))
        R.ob('the task queued is the one submitted', len(made) >= 1, at)
        if q and gf and made:
            ptl = made[0].recv
            got = [g for g in gf if g.recv is ptl]
            R.ob('the handle belongs to the queued task', bool(got) and got[0].seq < q[0].seq, gf[0])
            v = q[0].args[0][1]
            src = next((x for x in walk(v) if x is ptl), None)
            R.ob('the queued task is the one whose handle was taken', src is not None or v is made[0].args[0][1] or None if unresolved(v) and src is None else True, q[0], show(v)[:120])
            if fs:
                fv = fs[0].args[0][1]
                ok = any(contains(fv, lambda x, g=g: x is raw('ret', g.seq + 1, addr(g.recv))) for g in got)
                R.ob('the handle kept is the one of the task', ok or (None if unresolved(fv) and not any(x.op == 'ret' for x in walk(fv)) else ok), fs[0], show(fv)[:120])
                R.ob('the handle is kept before the task can run', fs[0].seq < q[0].seq, fs[0])
        elif q and not gf:
            R.ob('the handle belongs to the queued task', False, at, 'no handle is taken')
    if not n:
        raise Removed('tasks can be submitted', 'no method queues a task')


def waiting(R, P, r, runs, meths, futures, running):
    f = P.fn(POOL_ + '::Wait', 0)
    en = runs[f['key']]
    n0 = raw('init', fld(futures, '#size'))
    f0 = raw('init', futures)
    gets = [ev for ev in calls(en, 'get') if (ev.fn.get('cq') or '').startswith('std::future') or 'future' in ev.fn['q']]
    if not gets:
        R.ob('an exception thrown by a task reaches the waiter', False, f, 'no result is ever taken from the completion handles')
    early = [ev for ev in en.events if ev.kind == 'ret' and ev.fkey == f['key'] and ev.seq < (gets[0].seq if gets else 1 << 30)]
    quit_ = FALSE
    for ev in early:
        quit_ = OR(quit_, ev.pc)
        R.ob('waiting gives up only when no thread is running', implies(ev.pc, NOT(running), assumed(en, ev)), ev)
        R.ob('handles of unfinished tasks are kept', ev.st.read(fld(futures, '#size')) is n0 and not any(
            z.kind in ('store', 'call') and z.recv is futures and z.name in ('clear', 'erase', 'pop_back', 'resize', 'swap') and z.seq < ev.seq and sat(AND(z.pc, ev.pc)) for z in en.events), ev)
    for ev in gets:
        base = ev.recv.a[0] if ev.recv.op == 'idx' else None
        L = innermost(en, ev, ev.recv.a[1]) if base is not None else None
        if L is None or L.lo is None:
            R.ob('an exception thrown by a task reaches the waiter', None, ev, 'range of the results taken unknown')
            continue
        src = L.s0.read(base)
        size = L.s0.read(fld(base, '#size'))
        iv = interval(en, ev, ev.recv.a[1])
        R.ob('results are taken from the submitted tasks\' handles', True if base is futures or src is f0 or contains(src, lambda x: x is f0) else None if unresolved(src) else False, ev, show(src)[:120])
        t = tiles([iv[:2]], ZERO, n0) if iv else None
        R.ob('waiting covers every submitted task', t, ev, 'takes [%s, %s) of %s' % (show(iv[0]), show(iv[1]), show(n0)) if iv else '')
        skip = AND(iteration(L), NOT(ev.pc))
        R.ob('waiting skips no submitted task', True if not sat(skip) else False if not unresolved_pc(en, ev) else None, ev)
        if ev.tr:
            again = [z for z in en.events if z.kind == 'throw' or z.kind == 'call' and z.name in ('current_exception', 'rethrow_exception')]
            R.ob('an exception thrown by a task reaches the waiter', None if again or en.unsupported else False, ev, 'caught in between')
        else:
            R.ob('an exception thrown by a task reaches the waiter', True, ev)
        # everything is finished before the first result (which may throw) is taken
        ws = [w for w in en.events if w.kind == 'call' and w.name in ('wait', 'wait_for', 'wait_until') and w.seq < ev.seq and elem(w.recv, futures) is not None]
        if not ev.tr:
            ok = None if ws else False
            for w in ws:
                for key in w.loops:
                    M = en.loops[key]
                    if M.lo is not None and elem(w.recv, futures) is (M.main or [None])[0] and tiles([(M.lo, M.hi)], ZERO, n0):
                        ok = True
            R.ob('every task is finished before a failure is passed on', ok, ev)
        R.ob('handles already waited for are dropped', idiff(en.final.read(fld(futures, '#size')), ZERO) == 0 if not early and en.final else
             None if en.final is None else implies(AND(en.final.pc, NOT(quit_)), eq(en.final.read(fld(futures, '#size')), ZERO, True)) or None, f)
    # a wait that times out is repeated
    for w in calls(en, 'wait_for') + calls(en, 'wait_until'):
        if elem(w.recv, futures) is None:
            continue
        inner_ = w.loops and (en.loops[w.loops[-1]].main is None or elem(w.recv, futures) is not en.loops[w.loops[-1]].main[0])
        others = [z for z in calls(en, w.name) if elem(z.recv, futures) is not None and len(z.loops) > 1]
        blocking = [z for z in calls(en, 'wait') if elem(z.recv, futures) is not None] or gets
        R.ob('a timeout does not end the wait for a task', True if inner_ or others else (None if blocking and not early else False), w)


def up(en, t):
    """t with every later read of the running flag giving true"""
    g = TRUE
    for a in atoms(t):
        if contains(a, lambda x: x.op == 'vol'):
            g = AND(g, mk(a, TRUE, FALSE))
    return g


def worker(R, P, r, runs, meths, queue, flag):
    """the threads' loop; other threads may change the running flag at any moment"""
    n = 0

    def setup(en, fr):
        en.volatile = (flag,)
    for k, en0 in sorted(runs.items()):
        if meths[k].get('ctor') or not any(facts.strip_targs(ev.fn['q']) == QUEUE + '::TryPop' and ev.loops for ev in calls(en0)):
            continue
        en = R.run(None, fn=meths[k], opaque=(QUEUE + '::Push', QUEUE + '::TryPop', QUEUE + '::Clear'), setup=setup)
        for ev in [e for e in calls(en) if facts.strip_targs(e.fn['q']) == QUEUE + '::TryPop' and e.loops]:
            n += 1
            L = en.loops[ev.loops[-1]]
            got = tobool(raw('ret', ev.seq + 1, addr(ev.recv)))
            tl = ev.args[0][0]
            ran = [z for z in calls(en, 'callvalue') if z.seq > ev.seq and z.recv is tl]
            R.ob('a task taken from the queue is run exactly once', len(ran) == 1 and ran[0].loops == ev.loops and implies(AND(ev.pc, got), ran[0].pc),
                 ran[0] if ran else ev, '%d calls of the task' % len(ran))
            for z in ran:
                R.ob('only a task taken from the queue is run', implies(z.pc, got), z)
                R.ob('the task run is the one taken from the queue', contains(z.val, lambda x: x.op == 'hv') or z.val is z.st.read(tl), z)
            # serves the queue as long as the pool runs
            inl = [z for z in en.events if z.kind == 'vread' and z.loops == ev.loops]
            go = AND(L.back.pc, tobool(L.cond)) if L.back is not None and L.cond is not None and L.do else L.back.pc if L.back is not None else FALSE
            if L.cond is not None and not L.do:
                go = AND(go, tobool(L.cond))
            heads = [z for z in en.events if z.kind == 'vread' and L.cond is not None and contains_atom(tobool(L.cond), z.val)]
            R.ob('a worker stops when the pool stops', any(not sat(AND(go, NOT(tobool(z.val)))) for z in inl + heads), ev)
            R.ob('a worker starts when its thread does', implies(up(en, L.s0.pc), L.s0.pc, assumed(en)), ev)
            again = AND(iteration(L), up(en, go))
            R.ob('a worker goes on as long as the pool runs', L.back is not None and implies(again, AND(L.back.pc, tobool(L.cond) if L.do and L.cond is not None else TRUE), assumed(en)), ev)
    if not n:
        raise Removed('workers take tasks from the queue', 'no loop takes tasks')


def contains_atom(t, v):
    return any(contains(a, lambda x: x is v) for a in atoms(t))
