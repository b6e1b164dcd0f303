"""Profiler scopes and the profiler's output file (C31); profile and benchmark statistics (C40)."""
import effects
from rulelib import *
from rules.kpf import *
from rules.ilqr import *
from rules.ilqr2 import *
from rules.par import *
from rules.life import *
from rules.conc import fieldof, up, in_loops, S0

TIMER = 'altro::Timer'
WATCH = 'altro::Stopwatch'


def sel(v, s):
    return engine.select(v, s, THIS)


def field(R, r, pred, what):
    x = [y for y in r['fs'] if pred(ftype(r, y)['s'])]
    if len(x) != 1:
        raise Removed('the profiler keeps %s' % what, '%d members of that kind in %s' % (len(x), r['key']))
    return x[0]['n']


@rule('C31', 'path analysis of profiler scopes, scope-guard use analysis at every call site, and ownership (typestate) of the output stream')
def c31(R):
    P = R.P
    tr, wr = P.rec(TIMER), P.rec(WATCH)
    stack = fld(THIS, field(R, tr, lambda s: s.startswith('std::vector<std::'), 'the stack of open scopes'))
    times = fld(THIS, field(R, tr, lambda s: s.startswith('std::map<std::'), 'the accumulated times'))
    io = fld(THIS, field(R, tr, lambda s: 'FILE' in s and s.endswith('*'), 'its output stream'))
    parent = field(R, wr, lambda s: 'Timer' in s, 'the profiler of a scope')
    wname = field(R, wr, lambda s: s.startswith('std::basic_string') or s == 'std::string', 'the name of a scope')
    wstart = field(R, wr, lambda s: 'chrono' in s, 'the start of a scope')
    active = tobool(R.run(None, fn=P.fn(TIMER + '::IsActive', 0)).ret)
    n0 = raw('init', fld(stack, '#size'))
    pq = (TIMER + '::PrintSummary',)
    # ------------------------------------------------------------ opening a scope
    f = P.fn(TIMER + '::Start', 1)
    en = R.run(None, fn=f, opaque=pq)
    a0 = raw('init', raw('obj', 'arg0'))
    pu = [ev for ev in en.events if ev.kind == 'call' and ev.recv is stack and ev.name in ('push_back', 'emplace_back')]
    R.ob('opening a scope pushes one name exactly when profiling is active', len(pu) == 1 and not pu[0].loops and equiv(pu[0].pc, active), pu[0] if pu else f, '%d pushes' % len(pu))
    for ev in pu:
        v = ev.args[0][1]
        R.ob('the name pushed is the one given', v is a0 or (None if unresolved(v) else False), ev, show(v)[:100])
    sz = en.final.read(fld(stack, '#size'))
    R.ob('opening a scope changes the depth by one or not at all', all(idiff(x, n0) == (1 if sat(AND(p, active)) else 0) for p, x in cases(sz) if sat(AND(p, en.final.pc))), f, show(sz)[:100])
    others = [ev for ev in en.events if ev.kind == 'call' and ev.recv is stack and ev.name in ('clear', 'pop_back', 'erase', 'resize', 'insert', 'swap')]
    R.ob('opening a scope leaves the enclosing scopes alone', not others, others[0] if others else f)
    for p, v in cases(en.ret):
        ps = [x for pp, x in cases(sel(v, ('f', parent))) if sat(AND(AND(p, pp), en.final.pc))]
        for x in ps:
            if sat(AND(p, active)):
                ok = 'shared_from_this' in origin(en, x) or contains(x, lambda y: y is THIS)
                R.ob('an open scope reports to its profiler', False if x is NULL else ok or None, f, show(x)[:100])
                R.sub(full_name, en, sel(v, ('f', wname)), stack, n0, a0, f)
                st = sel(v, ('f', wstart))
                R.ob('a scope starts now', 'now' in show(st) or (None if unresolved(st) else False), f, show(st)[:100])
            else:
                R.ob('without profiling a scope reports nowhere', x is NULL or (None if unresolved(x) else False), f, show(x)[:100])
    # ------------------------------------------------------------ closing it
    d = P.fns.get(wr['key'] + '::<dtor>()')
    if d is None or not d.get('b'):
        raise Removed('leaving a scope records it', 'no destructor left in %s' % wr['key'])
    en = R.run(None, fn=d)
    par = raw('init', fld(THIS, parent))
    live = ptrbool(par)
    tstack, ttimes = fld(deref(par), stack.a[1]), fld(deref(par), times.a[1])
    pops = [ev for ev in en.events if ev.kind == 'call' and ev.recv is tstack and ev.name in ('pop_back', 'erase', 'resize', 'clear')]
    R.ob('closing a scope pops exactly one name', len(pops) == 1 and pops[0].name == 'pop_back' and not pops[0].loops and equiv(pops[0].pc, live), pops[0] if pops else d,
         '%s under %s' % ([p.name for p in pops], [show(p.pc)[:80] for p in pops]))
    adds = []
    for ev in en.events:
        if ev.kind == 'call' and ev.name in ('operator+=',) and ev.recv is not None and under(ev.recv, ttimes):
            adds.append((ev, ev.recv, ev.args[-1][1] if ev.args else None))
        elif ev.kind == 'store' and under(ev.loc, ttimes) and not any(s.op == 'fld' and s.a[1] == '#size' for s in walk(ev.loc)):
            old = ev.old if ev.old is not None else ev.st.read(ev.loc)
            inc = ev.val.a[-1] if ev.val.op == 'app' and contains(ev.val, lambda x: x is old) else None
            adds.append((ev, ev.loc, inc if inc is not None else ev.val))
            R.ob('the time is added to what the scope took before', contains(ev.val, lambda x: x is old), ev, show(ev.val)[:120])
    R.ob('closing a scope adds its time once', len(adds) == 1 and not adds[0][0].loops and equiv(adds[0][0].pc, live), adds[0][0] if adds else d, '%d times' % len(adds))
    for ev, l, v in adds:
        key = l.a[1] if l.op == 'idx' else None
        R.ob('the time is added under the full name of the scope', key is raw('init', fld(THIS, wname)) or (None if key is None or unresolved(key) else False), ev, show(l)[:120])
        el = v is not None and contains(v, lambda x: x is raw('init', fld(THIS, wstart))) and 'now' in show(v)
        R.ob('the time added is the one since the scope started', el or (None if v is None or unresolved(v) else False), ev, show(v)[:160] if v is not None else '')
    # ------------------------------------------------------------ one owner per scope
    R.sub(one_owner, P, wr, 'a scope cannot be closed twice', parent)
    R.sub(sites, P, wr)
    # ------------------------------------------------------------ nothing else touches the stack
    for k, g in sorted(P.fns.items()):
        if g.get('cls') not in (tr['key'], wr['key']) or not g.get('b') or g is f or g is d or g.get('ctor'):
            continue
        e2 = R.run(None, fn=g, opaque=())
        for ev in e2.events:
            if ev.recv is not None and ev.kind == 'call' and (ev.recv is stack or ev.recv is tstack) and ev.name in ('push_back', 'emplace_back', 'pop_back', 'clear', 'resize', 'erase') and \
                    not any(fr.get('key') in (f['key'], d['key']) for fr in ()) and ev.fkey not in (f['key'], d['key']):
                R.ob('only scopes change the stack of names', False, ev, g['q'])
        R.ob('only scopes change the stack of names', True, g)
    R.sub(ownership, P, tr, io)


def origin(en, v):
    """name of the call that produced v"""
    for x in walk(v):
        if x.op == 'ret' and isinstance(x.a[0], int) and 0 < x.a[0] <= len(en.events):
            return en.events[x.a[0] - 1].name or ''
    return ''


def full_name(R, en, v, stack, n0, a0, f):
    """the name of the scope is the names on the stack, outermost first, separated by a slash"""
    parts = [ev for ev in en.events if ev.kind == 'store' and ev.loops and ev.val is not None and 'str' in str(ev.val.op) + str(ev.val.a[0] if ev.val.a else '')]
    if not parts:
        R.ob('the full name lists all open scopes', None if unresolved(v) or v.op == 'app' else False, f, show(v)[:150])
        return
    ev = parts[0]
    ix = [x for x in walk(ev.val) if x.op == 'idx' and x.a[0] is stack] + [x.a[-1] for x in walk(ev.val) if x.op == 'init' and x.a[-1].op == 'idx' and x.a[-1].a[0] is stack]
    L = innermost(en, ev)
    if L is None or L.lo is None or not ix:
        # the element read may be summarised; fall back on the range of the loop
        if L is None or L.lo is None:
            R.ob('the full name lists all open scopes', None, ev, show(ev.val)[:150])
            return
        iv = (L.lo, L.hi)
    else:
        iv = interval(en, ev, ix[0].a[1])
        iv = iv[:2] if iv else (L.lo, L.hi)
    tot = iadd(n0, ONE)
    t1, t0 = tiles([iv], ONE, tot), tiles([iv], ZERO, tot)
    if v.op == 'app' and 'str' in str(v.a[0]) and contains(v.a[-1], lambda x: x is a0):
        # the new name is appended last, after the names that were open before
        t0 = True if tiles([iv], ZERO, n0) or tiles([iv], ONE, n0) else t0
    R.ob('the full name lists all open scopes', True if t1 or t0 else None if t1 is None or t0 is None else False, ev, '[%s, %s)' % (show(iv[0]), show(iv[1])))
    R.ob('the names of the full name are separated by a slash', any("'/'" in show(e.val) for e in parts), ev, show(ev.val)[:150])
    # the separator may depend on the scope; each pass has to append the name itself
    apps = [e for e in parts if e.loops == ev.loops]
    R.ob('the full name skips no open scope', full(en, L, en.loops[ev.loops[-1]].s0.pc) and any(always(en, e) for e in apps), ev)


def one_owner(R, P, r, name, what):
    """objects of r cannot be copied; a moved-from object owns nothing"""
    ms = r['ms']
    cc = [m for m in ms if m.get('cc')]
    sm = r.get('sm') or {}
    copyable = any(not m.get('del') for m in cc) or not cc and sm.get('simple_cc')
    # a declared move operation or a deleted copy suppresses the implicit copy
    if not cc and any(m.get('mc') or m.get('ma') for m in ms):
        copyable = False
    R.ob(name, not copyable, r, '%s can be copied' % r['key'])
    for m in ms:
        if m.get('mc') and not m.get('del'):
            x = next(y for y in r['fs'] if y['n'] == what)
            t = ftype(r, x)['s']
            if m.get('dflt'):
                R.ob('a scope that was moved from closes nothing', t.startswith(('std::shared_ptr', 'std::unique_ptr')), r, 'the default move leaves %s of type %s set' % (what, t))
            elif m['key'] in P.fns:
                en = R.run(None, fn=P.fns[m['key']])
                v = en.final.read(fld(raw('obj', 'arg0'), what))
                R.ob('a scope that was moved from closes nothing', v is NULL or (None if unresolved(v) else False), P.fns[m['key']], show(v)[:80])
        if m.get('ma') and not m.get('del') and not m.get('impl'):
            R.ob('assigning to an open scope closes it first', None if not m.get('dflt') else False, r, 'the scope assigned to is dropped without closing it')


def sites(R, P, wr):
    """every scope is bound to a local variable, so that it ends with the block it was opened in"""
    n = 0
    for k, f in sorted(P.fns.items()):
        if not f.get('b') or f.get('cls') in (wr['key'],):
            continue
        T_ = f['T']
        good = set()
        seen = []
        for x in list(effects.nodes(f['b'])) + [y for i in f.get('inits') or () for y in effects.nodes(i)]:
            if x['k'] == 'decl':
                for v in x['vs']:
                    if v.get('i') is not None and T_[v['t']].get('rec') == wr['key'] and not v.get('static'):
                        good |= {id(y) for y in through(v['i'])}
                    elif v.get('i') is not None and T_[v['t']].get('ref') and wr['key'] in T_[v['t']].get('s', ''):
                        good |= {id(y) for y in through(v['i'])}
            if x['k'] == 'ret' and x.get('e') is not None:
                good |= {id(y) for y in through(x['e'])}
            if x['k'] in ('cal', 'mcl') and (x.get('fn') or {}).get('rt') is not None and T_[x['t']].get('rec') == wr['key'] and not x['fn']['q'].startswith('std::'):
                seen.append(x)
            if x['k'] == 'new' and T_[x['at']].get('rec') == wr['key'] or x['k'] == 'cal' and (x.get('fn') or {}).get('n') in ('make_shared', 'make_unique') and wr['key'] in str((x['fn'] or {}).get('key')):
                R.ob('a scope ends with the block it was opened in', False, dict(f, l=x['l']), 'kept beyond its block')
            if x['k'] == 'cal' and (x.get('fn') or {}).get('n') == 'move' and x.get('as') and T_[x['as'][0]['t']].get('rec') == wr['key'] and id(x) not in good:
                R.ob('a scope ends with the block it was opened in', None, dict(f, l=x['l']), 'moved elsewhere')
        for x in seen:
            n += 1
            R.fns.add(k)
            R.ob('a scope ends with the block it was opened in', id(x) in good, dict(f, l=x['l']), 'the scope is not kept in a local variable and ends at once')
    # no object keeps a scope
    for k, r in sorted(P.recs.items()):
        for x in r['fs']:
            if wr['key'] in ftype(r, x)['s']:
                R.ob('no object keeps a scope open', False, r, x['n'])
    R.notes.append('%d profiled scopes' % n)
    if not n:
        raise Removed('the solver is profiled', 'no scope is opened anywhere')


def through(e):
    """e and what it is merely wrapped in"""
    while isinstance(e, dict):
        yield e
        if e['k'] == 'cast':
            e = e['a']
        elif e['k'] == 'ctor' and len(e.get('as') or ()) == 1:
            e = e['as'][0]
        else:
            return


def ownership(R, P, tr, io):
    """typestate of the output stream over every method of the profiler"""
    io0 = raw('init', io)
    meths = [f for k, f in sorted(P.fns.items()) if f.get('cls') == tr['key'] and f.get('b')]
    # the member that says whether the stream is the profiler's own: set where a file is opened
    own = None
    for f in meths:
        en = R.run(None, fn=f, quiet=(TIMER + '::PrintSummary',), opaque=(TIMER + '::PrintSummary',))
        if any(ev.kind == 'call' and ev.name == 'fopen' for ev in en.events) and en.final is not None:
            for x in tr['fs']:
                v = en.final.read(fld(THIS, x['n']))
                if ftype(tr, x)['k'] == 'bool' and v is TRUE:
                    own = fld(THIS, x['n'])
    opened = any(ev for f in meths for ev in effects.nodes(f['b']) if ev['k'] == 'cal' and (ev.get('fn') or {}).get('n') == 'fopen')
    if not opened:
        raise Removed('the profiler can write to a file it opens', 'no method opens a file')
    if own is None:
        s = next(ftype(tr, x)['s'] for x in tr['fs'] if x['n'] == io.a[1])
        R.ob('the profiler knows whether it owns its stream', None if s.startswith('std::') else False, tr, 'no flag is set when a file is opened')
        return
    u0 = tobool(raw('init', own))
    for f in meths:
        if f.get('ctor') and not (f.get('cc') or f.get('mc')):
            en = R.run(None, fn=f)
            R.ob('a new profiler owns no stream', en.final is not None and not sat(AND(en.final.pc, tobool(en.final.read(own)))), f, show(en.final.read(own)))
            continue
        dtor = f['n'].startswith('~')
        en = R.run(None, fn=f, quiet=(TIMER + '::PrintSummary',), opaque=(TIMER + '::PrintSummary',) if f['n'] != 'PrintSummary' else ())
        closes = [ev for ev in en.events if ev.kind == 'call' and ev.name in ('fclose', 'pclose')]
        opens = [ev for ev in en.events if ev.kind == 'call' and ev.name in ('fopen', 'freopen', 'tmpfile', 'fdopen')]
        mine, other = [], []
        for ev in closes:
            v = ev.args[0][1]
            for p, x in cases(v):
                if not sat(AND(ev.pc, p)):
                    continue
                if x is io0:
                    mine.append((ev, AND(ev.pc, p)))
                else:
                    other.append((ev, AND(ev.pc, p), x))
        for ev, p in mine:
            R.ob('a stream supplied by the user is never closed', implies(p, u0, assumed(en)), ev, f['n'])
        for i, (a, p) in enumerate(mine):
            for b, q in mine[:i]:
                R.ob('a file is closed only once', not sat(AND(p, q)), a, 'also closed at %s' % b.where())
        for ev, p, x in other:
            if contains(x, lambda y: y.op == 'app' and y.a[0] == 'fopen' or y.op == 'ret'):
                continue
            R.ob('only the profiler\'s own stream is closed', None if unresolved(x) else False, ev, show(x)[:100])
        shut = FALSE
        for ev, p in mine:
            shut = OR(shut, p)
        exits = []
        if en.final is not None:
            exits.append((en.final, None))
        exits += [(ev.st, ev) for ev in en.events if ev.kind == 'throw']
        for st, ev in exits:
            at = ev or f
            done = FALSE
            for e2, p in mine:
                if ev is None or e2.seq < ev.seq:
                    done = OR(done, p)
            if dtor:
                R.ob('a file the profiler opened is closed when it is destroyed', implies(AND(st.pc, u0), done, assumed(en)), at)
                continue
            iov, uv = st.read(io), tobool(st.read(own))
            for p, x in cases(iov):
                c = AND(AND(st.pc, p), TRUE)
                if not sat(c):
                    continue
                fresh = contains(x, lambda y: y.op == 'app' and y.a[0] == 'fopen' or y.op == 'ret') and x is not io0
                if x is io0:
                    # kept: same ownership, not closed
                    R.ob('the stream kept is not closed', not sat(AND(c, done)), at, f['n'])
                    R.ob('the profiler keeps track of whether it owns its stream', not sat(AND(AND(c, uv), NOT(u0))) and not sat(AND(AND(c, u0), NOT(uv))), at, f['n'])
                    continue
                R.ob('a file that is replaced is closed', implies(AND(c, u0), done, assumed(en)), at, f['n'])
                if fresh:
                    R.ob('a file the profiler opened is its own', implies(c, uv, assumed(en)), at, f['n'])
                elif not unresolved(x):
                    R.ob('a stream the profiler did not open is not its own', not sat(AND(c, uv)), at, '%s: %s' % (f['n'], show(x)[:60]))
        for ev in opens:
            v = app('fopen', *[a[1] for a in ev.args]) if False else None
            R.ob('a file the profiler opened is kept', en.final is not None and any(contains(x, lambda y: y.op == 'app' and y.a[0] == 'fopen' or y.op == 'ret') for _, x in cases(en.final.read(io))), ev)
    R.sub(one_owner_timer, P, tr)


def one_owner_timer(R, P, tr):
    ms = tr['ms']
    cc = [m for m in ms if m.get('cc')]
    sm = tr.get('sm') or {}
    copyable = any(not m.get('del') and not m.get('dflt') is None and m.get('acc') == 0 for m in cc) or not cc and sm.get('simple_cc') and not any(m.get('mc') or m.get('ma') for m in ms)
    R.ob('the output file has one owner', not copyable, tr, 'a profiler can be copied together with the file it closes')
