"""Solver statistics and logger registration (C32)."""
import effects
from rulelib import *
from rules.kpf import *
from rules.ilqr import *
from rules.ilqr2 import *
from rules.par import *
from rules.life import *
from rules.conc import S0
from rules.prof import through

ST = 'altro::SolverStats'
LG = 'altro::SolverLogger'
GROW = {'push_back', 'emplace_back', 'resize', 'clear', 'pop_back', 'assign', 'insert', 'emplace', 'erase', 'swap', 'operator='}


def const_str(P, f, e, depth=0):
    """the string literal e denotes, or None"""
    while isinstance(e, dict) and depth < 40:
        depth += 1
        k = e['k']
        if k == 'str':
            return e['v']
        if k == 'cast':
            e = e['a']
        elif k == 'ctor' and e.get('as'):
            e = e['as'][0]
        elif k == 'ref':
            i = None
            for n in effects.nodes(f.get('b')):
                if n['k'] == 'decl':
                    for v in n['vs']:
                        if v['id'] == e.get('id') and e.get('dk') == 'local' and (f['T'][v['t']].get('c') or 'const' in f['T'][v['t']]['s']):
                            i = v.get('i')
            if i is None and e.get('dk') == 'glob':
                g = getattr(P, 'globs', {}).get(e.get('q', e.get('n')))
                i = g.get('i') if g else None
            e = i
        else:
            return None
    return None


@rule('C32', 'name registration analysis of every log call, and path analysis of the operations that resize the statistics series')
def c32(R):
    P = R.P
    r = P.rec(ST)
    en, mp, cols, series, odd = registered(P)
    R.fns |= en.analysed
    R.nev += len(en.events)
    members = [x['n'] for x in r['fs'] if x['acc'] == 0 and ftype(r, x)['s'].startswith('std::vector<double')]
    unk = bool(odd) or any(t is None or m is None for t, m, _ in series)
    for m in members:
        evs = [ev for t, x, ev in series if x == m]
        R.ob('every series is registered under exactly one name', True if len(evs) == 1 else (None if unk else False), evs[0] if evs else r, '%s is registered %d times' % (m, len(evs)))
    names = {}
    for t, m, ev in series:
        if t is None:
            R.ob('a series is registered under the name of a column', None, ev)
            continue
        R.ob('no two series share a name', t not in names, ev, '%r' % t)
        names[t] = m
        R.ob('registration does not depend on anything', not ev.loops and equiv(ev.pc, TRUE), ev, show(ev.pc)[:100])
        R.ob('a series is registered under the name of a column', t in [c_ for c_, _ in cols] or (None if any(c_ is None for c_, _ in cols) else False), ev, '%r' % t)
    seen = set()
    for t, ev in cols:
        R.ob('column names are distinct', t not in seen if t is not None else None, ev, '%r' % t)
        R.ob('columns do not depend on anything', not ev.loops and (equiv(ev.pc, TRUE) or None), ev)
        seen.add(t)
    open_ = None in seen
    # ------------------------------------------------------------ names used
    n = 0
    used = set()
    for k, f in sorted(P.fns.items()):
        if not f.get('b') or not os.path.relpath(f['f'], facts.REPO).startswith('altro/'):
            continue
        for x in effects.nodes(f['b']):
            if x['k'] != 'mcl' or (x.get('fn') or {}).get('cls') not in (r['key'], LG):
                continue
            nm = x['fn']['n'].split('<')[0]
            if nm not in ('Log', 'GetEntry') or not x.get('as'):
                continue
            t = const_str(P, f, x['as'][0])
            if t is None:
                if f.get('cls') in (r['key'], LG):
                    continue          # passes on the name it was given
                R.ob('every name logged is a column', None, dict(f, l=x['l']), 'the name is not a constant')
                continue
            n += 1
            used.add(t)
            R.fns.add(k)
            R.ob('every name logged is a column', t in seen or (None if open_ else False), dict(f, l=x['l']), '%r is not a column of the logger' % t)
    R.notes.append('%d named uses of the logger' % n)
    if not n:
        raise Removed('the solvers log what they do', 'no value is logged')
    for t, m in sorted(names.items()):
        R.ob('every series is logged by a solver', t in used or None, r, '%s under %r' % (m, t))
    R.sub(add_entry, P, cols)
    R.sub(new_iteration, P, r, mp)
    R.sub(reset, P, r, mp, members)
    R.sub(set_data, P, r, mp)
    R.sub(others, P, r, members)
    R.sub(convergence, P, names)


def lenfield(R, P, r):
    """the counter of recorded iterations: the integer that decides the length of the series"""
    f = P.fn(ST + '::NewIteration', 0)
    en = R.run(None, fn=f)
    return f, en


def series_of(l, mp):
    """l is (inside) a series reached through the map of names"""
    while l is not None and l.op in LOCOPS and l.a:
        if l.op == 'idx' and l.a[0].op == 'fld' and l.a[0].a[1] == '#memp' and contains(l.a[1], lambda x: x is mp):
            return l
        if l.op == 'deref' and contains(l, lambda x: x is mp):
            return l
        l = l.a[0] if isinstance(l.a[0], tm.T) else None
    return None


def add_entry(R, P, cols):
    """AddEntry stores the new column under its own title, shows it once, and returns it"""
    fs = [f for k, f in sorted(P.fns.items()) if f['q'].split('<')[0] == LG + '::AddEntry' and f.get('b')]
    r = P.rec(LG)
    ents = [fld(THIS, x['n']) for x in r['fs'] if 'map<' in ftype(r, x)['s']]
    order = [fld(THIS, x['n']) for x in r['fs'] if ftype(r, x)['s'].startswith(('std::vector<std::', 'std::list<std::', 'std::deque<std::'))]
    if len(ents) != 1:
        return
    E = ents[0]
    for f in fs:
        en = R.run(None, fn=f)
        ins = [ev for ev in en.events if ev.kind == 'call' and ev.recv is E and ev.name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign')]
        ins += [ev for ev in en.events if ev.kind == 'store' and ev.loc.op == 'idx' and ev.loc.a[0] is E]
        R.ob('adding a column adds one entry', len(ins) == 1 and always(en, ins[0]), ins[0] if ins else f, '%d insertions' % len(ins))
        title = raw('init', raw('obj', 'arg1'))
        for ev in ins:
            key = ev.loc.a[1] if ev.kind == 'store' else ev.args[0][1]
            if key is not None and key.op == 'app' and 'make_pair' in str(key.a[0]):
                key = key.a[1]
            elif key is not None and key.op in ('agg', 'pair'):
                key = engine.select(key, ('f', 'first'), THIS)
            ok = contains(key, lambda x: x is raw('obj', 'arg1')) if key is not None else None
            R.ob('a column is stored under its own title', ok or (None if key is None or unresolved(key) or key.op not in ('init', 's', 'app') else False), ev, show(key)[:120] if key is not None else '')
        if len(order) == 1:
            sh = [ev for ev in en.events if ev.kind == 'call' and ev.recv is order[0] and ev.name in ('insert', 'push_back', 'emplace_back', 'emplace')]
            R.ob('a column is shown once', len(sh) == 1 and always(en, sh[0]), sh[0] if sh else f, '%d times' % len(sh))
            for ev in sh:
                v = ev.args[-1][1]
                R.ob('a column is shown under its own title', contains(v, lambda x: x is raw('obj', 'arg1')) or (None if unresolved(v) else False), ev, show(v)[:100])
        v = en.ret
        if v is not None:
            R.ob('adding a column returns its entry', contains(v, lambda x: x is E) or (None if unresolved(v) else False), f, show(v)[:120])


def new_iteration(R, P, r, mp):
    f = P.fn(ST + '::NewIteration', 0)
    en = R.run(None, fn=f)
    ints = [fld(THIS, x['n']) for x in r['fs'] if ftype(r, x)['s'] in ('int', 'unsigned int', 'unsigned long', 'long') and x['acc'] != 0]
    changed = [l for l in ints if en.final.read(l) is not raw('init', l)]
    if len(changed) != 1:
        R.ob('a new iteration is counted once', None if ints else False, f, '%d counters change' % len(changed))
        return
    ln = changed[0]
    n0 = raw('init', ln)
    R.cache['len'] = ln
    n1 = en.final.read(ln)
    R.ob('a new iteration is counted once', idiff(n1, n0) == 1 or (None if unresolved(n1) else False), f, show(n1)[:100])
    sized = [ev for ev in en.events if ev.kind == 'call' and ev.name in ('resize', 'push_back', 'emplace_back') and series_of(ev.recv, mp) is not None]
    if not sized:
        direct = [ev for ev in en.events if ev.kind == 'call' and ev.name in ('resize', 'push_back', 'emplace_back')]
        if direct:
            return each_member(R, r, en, direct, f, ln)
        R.ob('a new iteration lengthens every series', False, f, 'no series is lengthened')
        return
    L = innermost(en, sized[0])
    for ev in sized:
        whole = L is not None and L.lo is ZERO and L.hi is not None and contains(L.hi, lambda x: x is mp) and ev.loops
        R.ob('a new iteration acts on every series', bool(whole and full(en, L)) or (None if L is None or L.lo is None else False), ev)
        it = any(x.op in ('mu', 'idx') for x in walk(ev.recv))
        if ev.name == 'resize':
            R.ob('a new iteration makes every series as long as the number of iterations', idiff(ev.args[0][1], n1) == 0 or (None if unresolved(ev.args[0][1]) else False), ev, show(ev.args[0][1])[:100])
            R.ob('a new iteration lengthens every series', always(en, ev), ev, show(ev.pc)[:160])
    if any(ev.name != 'resize' for ev in sized):
        R.ob('a new iteration lengthens every series', len(sized) == 1 and always(en, sized[0]) or None, sized[0])
        return
    # what the new element holds
    ev = sized[0]
    s = ev.recv
    cell = idx(s, isub(n1, ONE))
    wr = [e for e in en.events if e.kind == 'store' and e.loc.op == 'idx' and e.loc.a[0] is s and e.loops == ev.loops]
    if not wr:
        v = ev.args[1][1] if len(ev.args) > 1 else ZERO
        R.ob('a new iteration starts from the values of the last one', None if unresolved(v) else False, ev, 'new elements are %s' % show(v)[:80])
        return
    for e in wr:
        R.ob('a new iteration only writes the new element', e.loc is cell or idiff(e.loc.a[1], isub(n1, ONE)) == 0 or (None if unresolved(e.loc.a[1]) else False), e, show(e.loc)[:120])
        for p, v in cases(e.val):
            c_ = AND(e.pc, p)
            if not sat(c_):
                continue
            old = prev_elem(v, s, n1)
            if old:
                continue
            first = implies(c_, NOT(ilt(ONE, n1)))
            if old is False and v is not ZERO:
                R.ob('a new iteration starts from the values of the last one', False, e, show(v)[:160])
            elif v is ZERO or v is c(0):
                R.ob('a new iteration starts from the values of the last one', bool(first), e, 'starts from zero although there is a previous iteration')
    later = AND(iteration(L) if L is not None else TRUE, ilt(ONE, n1))
    got = FALSE
    for e in wr:
        for p, v in cases(e.val):
            if prev_elem(v, s, n1):
                got = OR(got, AND(e.pc, p))
    R.ob('a new iteration starts from the values of the last one', implies(AND(later, NOT(ilt(n0, ZERO))), got) or (None if any(unresolved(e.val) for e in wr) else False), wr[0], 'the previous value is kept under %s' % show(got)[:160])


def prev_elem(v, s, n1):
    """v is the element before the new one: True, False or None"""
    want = isub(n1, c(2))
    for x in walk(v):
        i = None
        if x.op == 'sel' and contains(x.a[0], lambda y: y is s) and isinstance(x.a[1], tuple) and x.a[1][0] == 'i':
            i = x.a[1][1]
        elif x.op == 'idx' and contains(x.a[0], lambda y: y is s):
            i = x.a[1]
        if i is not None:
            return True if idiff(i, want) == 0 else None if unresolved(i) else False
    return None if unresolved(v) else False


def each_member(R, r, en, evs, f, ln):
    members = [x['n'] for x in r['fs'] if x['acc'] == 0 and ftype(r, x)['s'].startswith('std::vector<double')]
    for m in members:
        mine = [ev for ev in evs if ev.recv is fld(THIS, m)]
        R.ob('a new iteration lengthens every series', len(mine) == 1 and always(en, mine[0]) if mine else (None if any(unresolved(e.recv) for e in evs if e.recv is not None) else False), mine[0] if mine else f, m)


def reset(R, P, r, mp, members):
    f = P.fn(ST + '::Reset', 0)
    en = R.run(None, fn=f, quiet=('altro::Timer::SetOutput',))
    ln = R.cache.get('len')
    if ln is not None:
        v = en.final.read(ln)
        R.ob('a reset restarts the count of iterations', v is ZERO or (None if unresolved(v) else False), f, show(v)[:80])
    cl = [ev for ev in en.events if ev.kind == 'call' and ev.name in ('clear', 'resize', 'erase') and series_of(ev.recv, mp) is not None]
    if cl:
        for ev in cl:
            L = innermost(en, ev)
            whole = L is not None and L.lo is ZERO and L.hi is not None and contains(L.hi, lambda x: x is mp)
            ok = ev.name == 'clear' or ev.name == 'resize' and ev.args[0][1] is ZERO
            R.ob('a reset empties every series', bool(ok and whole and full(en, L) and always(en, ev)) or (None if L is None or L.lo is None else False), ev)
        return
    odd = any(ev.kind == 'call' and ev.name in ('clear', 'resize', 'erase', 'assign') and ev.loops for ev in en.events)
    for m in members:
        mine = [ev for ev in en.events if ev.kind == 'call' and ev.name == 'clear' and ev.recv is fld(THIS, m)]
        v = en.final.read(fld(fld(THIS, m), '#size'))
        R.ob('a reset empties every series', v is ZERO or bool(mine and always(en, mine[0])) or (None if odd else False), mine[0] if mine else f, m)


def set_data(R, P, r, mp):
    ln = R.cache.get('len')
    logs = [f for k, f in sorted(P.fns.items()) if f.get('cls') == r['key'] and f['n'].split('<')[0] == 'Log' and f.get('b')]
    if not logs:
        raise Removed('values are logged by name', 'no Log function left')
    for f in logs:
        en = R.run(None, fn=f, opaque=(LG + '::Log',), quiet=(LG + '::Log',))
        a0, a1 = raw('init', raw('obj', 'arg0')), raw('init', raw('obj', 'arg1'))
        sent = [ev for ev in en.events if ev.kind == 'call' and facts.strip_targs(ev.fn['q']) == LG + '::Log'] if True else []
        R.ob('a logged value reaches the table', len(sent) == 1 and always(en, sent[0]), sent[0] if sent else f)
        for ev in sent:
            ok = ev.args[0][1] is a0 and ev.args[1][1] is a1
            R.ob('a logged value reaches the table under its name', ok or (None if any(unresolved(x[1]) for x in ev.args) else False), ev)
        wr = [ev for ev in en.events if ev.kind == 'store' and ev.loc.op == 'idx' and series_of(ev.loc.a[0], mp) is not None and not ev.loops]
        keyed = [ev for ev in wr if contains(ev.loc, lambda x: x is a0) or contains(ev.loc, lambda x: x is raw('obj', 'arg0'))]
        R.ob('a logged value is stored in the series of its name', len(keyed) == 1 and len(wr) == 1 or (None if wr else False), wr[0] if wr else f, '%d stores' % len(wr))
        for ev in keyed:
            R.ob('the value stored is the one logged', ev.val is a1 or (None if unresolved(ev.val) else False), ev, show(ev.val)[:80])
            i = ev.loc.a[1]
            last = all(v.op in ('init', 'sel', 'mu', 'hv') and '#size' in show(v) or ln is not None and idiff(v, en.final.read(ln)) == 0
                       for p, v in cases(iadd(i, ONE)) if sat(AND(p, ev.pc)))
            R.ob('the value is stored for the current iteration', last or (None if unresolved(i) else False), ev, show(i)[:160])
            find = [x for x in walk(ev.pc) if x.op == 'app' and str(x.a[0]).startswith('mapit') or x.op == 'mapit']
            ct = show(ev.pc)
            R.ob('a value whose name has a series is always stored', equiv(ev.pc, found(en, ev, mp, a0)) if found(en, ev, mp, a0) is not None else None, ev, ct[:200])
        # the first value registers the first iteration
        if ln is not None:
            first = tobool(eq(raw('init', ln), ZERO, True))
            v = en.final.read(ln)
            ok = all((idiff(x, ONE) == 0 or idiff(x, iadd(raw('init', ln), ONE)) == 0) == sat(AND(AND(p, first), en.final.pc)) for p, x in cases(v) if sat(AND(p, en.final.pc)))
            R.ob('a value logged before the first iteration starts one', ok or (None if unresolved(v) else False), f, show(v)[:120])


def found(en, ev, mp, a0):
    """the condition under which the name is in the map, as the code tests it"""
    for x in walk(ev.pc):
        if x.op == 'haskey' and x.a[0] is mp and (x.a[1] is a0 or contains(x.a[1], lambda y: y is a0)):
            return mk(x, TRUE, FALSE)
        if x.op == 'app' and len(x.a) == 3 and ('operator!=' in str(x.a[0]) or 'operator==' in str(x.a[0])) and contains(x, lambda y: y is mp) and contains(x, lambda y: y is a0):
            return x if 'operator!=' in str(x.a[0]) else NOT(x)
    return None


def others(R, P, r, members):
    """nothing else changes the length of a series or the count"""
    ln = R.cache.get('len')
    keep = {ST + '::NewIteration', ST + '::Reset'}
    n = 0
    for k, f in sorted(P.fns.items()):
        if not f.get('b') or f['q'].split('<')[0] in keep or not os.path.relpath(f['f'], facts.REPO).startswith('altro/'):
            continue
        if f.get('ctor') and f.get('cls') == r['key']:
            continue
        for x in effects.nodes(f['b']):
            t, nm = None, None
            if x['k'] == 'mcl' and (x.get('fn') or {}).get('n') in GROW:
                t, nm = x.get('ob'), x['fn']['n']
            elif x['k'] == 'opc' and x.get('op') == '=' and x.get('as'):
                t, nm = x['as'][0], '='
            elif x['k'] == 'asg':
                t, nm = x['a'], '='
            elif x['k'] == 'un' and x['op'] in ('++', '--'):
                t, nm = x['a'], x['op']
            if not isinstance(t, dict):
                continue
            if t['k'] == 'mem' and t.get('o') == r['key'] and (t['n'] in members or ln is not None and t['n'] == ln.a[1]):
                R.ob('only new iterations and resets change the length of a series', False, dict(f, l=x['l']), '%s of %s' % (nm, t['n']))
            n += 1
    R.ob('only new iterations and resets change the length of a series', True, r, '%d writes examined' % n)


def last_of(en, v, s):
    return contains(v, lambda x: x.op == 'idx' and x.a[0] is s)


def convergence(R, P, names):
    """what the convergence tests read was logged in the same iteration"""
    byser = {m: t for t, m in names.items()}
    for cls, inst, st in (('altro::ilqr::iLQR', I62, None), ('altro::augmented_lagrangian::AugmentedLagrangianiLQR', I62, None)):
        read = set()
        done = R.run(cls + '::IsDone', inst=inst)
        vals = [done.final.pc] + ([done.ret] if done.ret is not None else []) + [ev.val for ev in done.events if ev.val is not None] + [ev.pc for ev in done.events]
        for v in vals:
            for x in walk(v):
                if x.op == 'idx' and x.a[0].op == 'fld' and x.a[0].a[1] in byser:
                    read.add(x.a[0].a[1])
        if not read:
            R.ob('the convergence test reads the recorded values', None, done.root, cls)
            continue
        en = R.run(cls + '::UpdateConvergenceStatistics', inst=inst, quiet=STATS)
        got = {}
        for t, v, e in logged(en):
            m = next((m for m, w in MEANING.items() if w == t), t.lstrip('?'))
            if m in byser and always(en, e) and not e.loops:
                got.setdefault(m, []).append((v, e))
        for s in sorted(read):
            R.ob('the convergence test reads values logged in the same iteration', s in got, got[s][0][1] if s in got else done.root, '%s of %s is not logged on every path of UpdateConvergenceStatistics' % (s, cls))
