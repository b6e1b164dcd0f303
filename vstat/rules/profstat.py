"""Profile percentages and benchmark statistics (C40)."""
import effects
from rulelib import *
from rules.kpf import *

PE = 'altro::ProfileEntry'
TM = 'altro::Timer'
BR = 'altro::utils::BenchmarkResults'
WIDE = ('long', 'unsigned long', 'long long', 'unsigned long long', 'double', 'long double', '__int128')


def ts(f, n):
    return f['T'][n['t']].get('s', '').replace('const ', '').strip() if isinstance(n.get('t'), int) and 0 <= n['t'] < len(f['T']) else ''


def timed(f, n, tainted):
    """the value of n comes from a measured duration"""
    if not isinstance(n, dict):
        return any(timed(f, x, tainted) for x in n) if isinstance(n, list) else False
    nm = (n.get('fn') or {}).get('n') if isinstance(n.get('fn'), dict) else None
    if nm in ('size', 'length', 'capacity', 'begin', 'end', 'cbegin', 'cend', 'empty'):
        return False
    if nm == 'count' and 'chrono' in (n.get('fn') or {}).get('q', ''):
        return True
    if ts(f, n).startswith('std::chrono::duration'):
        return True
    if n.get('k') == 'ref' and n.get('id') in tainted:
        return True
    return any(timed(f, v, tainted) for k, v in n.items() if k != 'fn' and isinstance(v, (dict, list)))


def quotient(n):
    while isinstance(n, dict) and n['k'] == 'cast':
        n = n.get('a')
    return isinstance(n, dict) and (n['k'] in ('bin', 'opc') and n.get('op') == '/' or n['k'] == 'opc' and (n.get('fn') or {}).get('n') == 'operator/')


NARROW = ('int', 'unsigned int', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char', 'float')


def narrowing(R, f):
    """no value derived from a duration is cut to a narrower type before the division that makes it a percentage"""
    tainted = set()
    trees = list(f.get('inits') or ()) + [f.get('b')]
    for _ in range(3):
        for t in trees:
            for n in effects.nodes(t):
                if n['k'] == 'decl':
                    for d in n.get('vs') or ():
                        if isinstance(d, dict) and d.get('i') is not None and timed(f, d['i'], tainted) and not quotient(d['i']):
                            tainted.add(d.get('id'))
    k = 0
    for t in trees:
        for n in effects.nodes(t):
            if n['k'] == 'cast' and ts(f, n) in NARROW and isinstance(n.get('a'), dict):
                a = n['a']
                if ts(f, a) in WIDE and timed(f, a, tainted):
                    k += 1
                    R.ob('a measured duration is not narrowed', quotient(a), dict(f, l=a.get('l', f['l'])), 'cut to %s' % ts(f, n))
            if n['k'] == 'cal' and (n.get('fn') or {}).get('n') == 'duration_cast' and 'int>' in ts(f, n).replace(' ', '')[:40]:
                R.ob('a measured duration is not narrowed', False, dict(f, l=n.get('l', f['l'])), 'cut to %s' % ts(f, n))
    return k


def opn(x, n):
    return x.op == n or x.op == 'app' and x.a[0] == n


def dens(v):
    """(condition, numerator, denominator) of the divisions that make up v"""
    out, seen = [], set()

    def go(x, pc):
        if (x.id, pc.id) in seen:
            return
        seen.add((x.id, pc.id))
        if x.op == 'ite':
            go(x.a[0], pc)
            go(x.a[1], AND(pc, x.a[0]))
            go(x.a[2], AND(pc, NOT(x.a[0])))
            return
        if opn(x, 'idiv'):
            out.append((pc, x.a[-2], x.a[-1]))
        elif x.op == 'app' and str(x.a[0]).startswith('std::chrono::operator/') and len(x.a) == 3:
            out.append((pc, x.a[1], x.a[2]))
        for y in x.a:
            if isinstance(y, T):
                go(y, pc)
    go(v, TRUE)
    return out


def uncount(v):
    """the duration whose count v is"""
    if v.op == 'app' and str(v.a[0]).endswith('::count') and len(v.a) == 2:
        return v.a[1]
    return None


def zero_excluded(pc, d):
    """pc excludes a zero divisor d (a count or a duration)"""
    cand = []
    if d.op != 'app' or not str(d.a[0]).startswith('std::chrono::operator'):
        pass
    dur = uncount(d)
    for x in walk(pc):
        u = uncount(x)
        if u is not None and (dur is not None and u is dur or u is d):
            cand.append(x)
    if dur is not None:
        cand.append(d)
    for x in cand:
        if implies(pc, NOT(eq(x, ZERO, True))):
            return True
    tgt = dur if dur is not None else d
    if not any(x is tgt or x is d for x in walk(pc)):
        return None if tgt.op in ('hv', 'mu', 'unk') else False
    # compared as durations
    for x in walk(pc):
        if x.op == 'app' and 'operator' in str(x.a[0]) and any(y is tgt for y in x.a[1:] if isinstance(y, T)):
            return None
    return False if cand else None


@rule('C40', 'narrowing-cast taint analysis on measured durations, divisor analysis on path conditions, coverage of entries and samples')
def c40(R):
    P = R.P
    n = 0
    for k, f in sorted(P.fns.items()):
        q = f['q']
        if f.get('b') and (q.startswith((PE, TM + '::', 'altro::Stopwatch', BR)) or facts.strip_targs(q) == 'altro::utils::Benchmark'):
            R.fns.add(k)
            n += narrowing(R, f)
            R.ob('a measured duration is not narrowed', True, f)
    R.sub(percentages, P)
    R.sub(summary, P)
    R.sub(samples, P)


def percentages(R, P):
    f = P.fn(PE + '::CalcStats', 0)
    en = R.run(None, fn=f, quiet=(PE + '::GetRoot',))
    root = [e for e in en.events if e.kind == 'call' and e.name == 'GetRoot']
    tm = engine.State().read(fld(THIS, 'time'))
    par = engine.State().read(fld(THIS, 'parent'))
    for name in ('percent_total', 'percent_parent'):
        st = [e for e in en.events if e.kind == 'store' and e.loc is fld(THIS, name)]
        R.ob('the percentages are computed', bool(st) or False, f, 'nothing is stored in %s' % name)
        v = en.final.read(fld(THIS, name))
        any_ = False
        for e in st:
            for cond, num, den in dens(e.val):
                any_ = True
                R.ob('no division by a zero duration', zero_excluded(AND(e.pc, cond), den), e, 'divides by %s under %s' % (show(den)[:80], show(e.pc)[:120]))
                R.ob('the percentage is of the time of this entry', contains(num, lambda x: x is tm) or (None if unresolved(num) else False), e, show(num)[:100])
                if name == 'percent_total':
                    if root:
                        R.ob('the total is the time of the root', contains(den, lambda x: x.op == 'ret' and x.a[0] == root[0].id) or (None if unresolved(den) else False), e, show(den)[:100])
                else:
                    w = engine.State().read(fld(deref(par), 'time'))
                    R.ob('the share is of the time of the parent', contains(den, lambda x: x is w) or (None if unresolved(den) else False), e, show(den)[:100])
        R.ob('the percentages are computed', any_ or None, f, 'no division found for %s' % name)
        # multiplied before divided
        for e in st:
            for _, num, den in dens(e.val):
                R.ob('the percentage is scaled before dividing', contains(num, lambda x: x is c(100)) or any(contains(num, lambda x: 100 in [getattr(x, 'a', (None,))[0]] if x.op == 'c' else False) for _ in (0,)) or '100' in show(num) or (None if unresolved(num) else False), e, show(num)[:80])
    g = P.fn(PE + '::GetRoot', 0)
    en = R.run(None, fn=g)
    r = en.ret
    pr = en.final.read(fld(deref(r), 'parent')) if r is not None else None
    ok = None
    if pr is not None:
        ok = implies(en.final.pc, NOT(tobool(pr))) or implies(en.final.pc, eq(pr, NULL, False))
    R.ob('the root has no parent', ok or (None if en.loops else False), g, show(en.final.pc)[:120])


def unskipped(L, pc):
    """pc depends on nothing but the loop condition and the ends of inner loops"""
    if implies(iteration(L), pc):
        return True
    its = list(atoms(iteration(L)))
    own = {m.id for m in L.ivs}
    for t in atoms(pc):
        if any(t is x for x in its):
            continue
        if contains(t, lambda x: x.op == 'mu' and x.id not in own) or 'str.' in show(t):
            continue
        return False
    return True


def deref_idx(l):
    """the vector whose element the pointer behind l is"""
    if l is not None and l.op == 'deref':
        v = l.a[0]
        while v.op in ('mu', 'init', 'ld') and isinstance(v.a[0], T) is False and len(v.a) > 1:
            break
        for x in walk(v):
            if x.op == 'idx':
                return x.a[0]
    return None


def summary(R, P):
    f = P.fn(TM + '::PrintSummary', 1)
    en = R.run(None, fn=f, timers=True, quiet=(PE + '::CalcStats', PE + '::Print', PE + '::NumLevels', PE + '::ProfileEntry'))
    pr = [e for e in en.events if e.kind == 'call' and e.name == 'Print' and (e.fn or {}).get('cls') == PE]
    cs = [e for e in en.events if e.kind == 'call' and e.name == 'CalcStats']
    R.ob('every entry is printed', bool(pr) or None, f, 'no entry is printed')
    for e in pr:
        ok = any(x.recv is e.recv and x.seq < e.seq and x.loops == e.loops and implies(e.pc, x.pc) for x in cs)
        R.ob('an entry is printed after its statistics are computed', ok or (None if not cs and not any('CalcStats' in show(e.recv) for _ in (0,)) and unresolved(e.recv) else False), e, show(e.recv)[:60])
        L = innermost(en, e)
        if L is None or L.lo is None:
            R.ob('every entry is printed', None, e, 'loop not understood')
            continue
        R.ob('every entry is printed', True if idiff(L.lo, ONE) == 0 and full(en, L) and implies(iteration(L), e.pc, assumed(en, e)) else (None if unresolved_pc(en, e) or idiff(L.lo, ONE) is None else False), e, 'from entry %s' % show(L.lo))
        hi = L.hi
        vec = deref_idx(e.recv)
        if vec is not None and L.s0 is not None:
            d = idiff(hi, L.s0.read(fld(vec, '#size')))
            R.ob('every entry is printed', d == 0 if d is not None else None, e, 'only up to %s' % show(hi)[:60])
    news = [e for e in en.events if e.kind == 'new' and e.loops]
    got = False
    for e in news:
        L = en.loops[e.loops[-1]]
        if L.rng is None and 'arg0.#size' in show(L.hi) if L.hi is not None else L.rng is not None and 'arg0' in show(L.rng):
            got = True
            R.ob('every recorded time gets an entry', unskipped(L, e.pc) and unskipped(L, L.back.pc if L.back is not None else TRUE), e)
    R.ob('every recorded time gets an entry', got or None, f, 'loop over the recorded times not found')
    ps = [e for e in en.events if e.kind == 'store' and e.loc is not None and e.loc.op == 'fld' and e.loc.a[1] == 'parent' and e.loops]
    for e in ps:
        L = en.loops[e.loops[-1]]
        R.ob('every entry gets a parent', unskipped(L, e.pc), e)
    if news:
        R.ob('every entry gets a parent', bool(ps) or False, f, 'no parent is assigned')
    # the slot of the table of current parents in which the entry itself is kept
    own = [e for e in en.events if e.kind == 'store' and e.loc is not None and e.loc.op == 'idx' and len(e.loc.a) == 2 and e.loops and any(e.val is n.val for n in news)
           and not any(x.kind == 'call' and x.name in ('push_back', 'emplace_back') and x.line == e.line for x in en.events)]
    lev = own[0].loc.a[1] if len({e.loc.a[1].id for e in own}) == 1 else None
    for e in ps:
        ix = []
        for x in (walk(e.val.a[0] if e.val.op == 'mayw' else e.val) if lev is not None else ()):
            if x.op == 'sel' and x.a[1][0] == 'i' and len(x.a[1]) == 2:
                ix.append(x.a[1][1])
            elif x.op in ('mu', 'init') and x.a[-1].op == 'idx' and x.a[-1].a[0] is own[0].loc.a[0]:
                ix.append(x.a[-1].a[1])
        ds = {idiff(x, lev) for x in ix}
        R.ob('the parent of an entry is the last entry of the level above', True if ds == {-1} else (False if resolvable(ix, lev) else None), e, 'taken from level %s, own level %s' % ([show(x)[:60] for x in ix], show(lev)[:60] if lev is not None else None))
    add = [e for e in en.events if e.loops and (e.kind == 'call' and e.name == 'operator+=' or e.kind == 'store' and e.loc.op == 'fld' and e.loc.a[1] == 'time')]
    R.ob('the total is the sum of the base level entries', bool(add) or False, f, 'no time is added to the total')
    for e in add if lev is not None else ():
        L = en.loops[e.loops[-1]]
        base = eq(lev, ONE, True)
        ok = implies(e.pc, base, assumed(en, e)) and any(implies(AND(x.pc, base), e.pc, assumed(en, e)) for x in own if x.loops == e.loops)
        R.ob('the total is the sum of the base level entries', True if ok else (False if only_about(e.pc, L, lev, own) else None), e, 'added when %s' % show(e.pc)[-200:])


def resolvable(ix, lev):
    """some index, computed for a given level, is not that of the level above"""
    for k in range(1, 5):
        for x in ix:
            v = cv(subst(x, {lev.id: c(k)}))
            if v is not None and v != k - 1:
                return True
    return False


def only_about(pc, L, lev, own):
    """what pc says beyond reaching the iteration compares the level of the entry with constants"""
    base = own[0].pc
    known = {a.id for a in atoms(base)}
    left = [a for a in atoms(pc) if a.id not in known]
    return all(contains(a, lambda y: y is lev) and not contains(a, lambda y: y.op in ('mu', 'hv', 'undef', 'unk') and not contains(lev, lambda z: z is y)) for a in left)


def samples(R, P):
    fs = [f for f in P.find(BR + '::Calculate') if f.get('b')]
    R.ob('benchmark statistics', bool(fs) or None, ('altro/utils/benchmarking.hpp', BR), 'not instantiated')
    for f in fs[:1]:
        en = R.run(None, fn=f)
        a = raw('obj', 'arg0')
        size = engine.State().read(fld(a, '#size'))
        half = None

        def elems(v):
            for x in walk(v):
                if x.op == 'idx' and x.a[0] is a:
                    yield x, x.a[1]
        bad = {}
        nacc = 0
        for e in en.events:
            ls = [e.val, e.recv] + [y[1] for y in (e.args or ())] + [y[0] for y in (e.args or ())] if e.name not in ('std::sort', 'sort', 'nth_element') else []
            ls = [x for x in ls if isinstance(x, T)]
            if e.kind == 'ret':
                continue
            for v in ls:
                for x, i in guarded(v, a):
                    nacc += 1
                    pc = AND(e.pc, x)
                    ok = in_range(en, e, pc, i, size)
                    R.ob('a sample is read only when it exists', ok, e, 'reads sample %s under %s' % (show(i)[:60], show(pc)[:100]))
        R.ob('a sample is read only when it exists', nacc > 0 or None, f, 'no access found')
        for e in en.events:
            if e.kind == 'call' and e.name == 'operator/' and len(e.args or ()) == 2 and contains(e.args[1][1], lambda x: x is size):
                R.ob('no division by an empty sample set', implies(e.pc, NOT(eq(size, ZERO, True))) or False, e, show(e.pc)[:100])
        # the whole sample set
        for L in en.loops.values():
            if L.main is None or L.lo is None:
                continue
            m = L.main[0]
            uses = [e for e in en.events if e.loops and en.loops[e.loops[-1]] is L and any(contains(v, lambda x: x is m) for v in [e.val] + [y[1] for y in (e.args or ())] if isinstance(v, T)) and e.line != L.line]
            if not uses:
                continue
            lo, hi = idiff(L.lo, ZERO), idiff(L.hi, size)
            if lo is None or hi is None:
                R.ob('every sample counts', None, f, 'loop over [%s, %s)' % (show(L.lo), show(L.hi)))
                continue
            first = lo == 1 and before_first(en, L, a)
            R.ob('every sample counts', hi == 0 and (lo == 0 or bool(first)) and full(en, L), uses[0], 'samples [%s, %s)' % (show(L.lo), show(L.hi)))
        # median
        srt = [e for e in en.events if e.kind == 'call' and (e.name or '').endswith(('sort', 'nth_element'))]
        r = en.ret
        R.ob('the samples are sorted before the median is taken', bool(srt) or None, f, 'no sort')
        h = [x for x in walk(r) if opn(x, 'idiv') and x.a[-2] is size] if r is not None else []
        if h and srt:
            h = h[0]
            for e in en.events:
                if e.kind in ('store', 'call') and not e.loops:
                    for v in ([e.val] if e.kind == 'store' else []):
                        ix = [i for _, i in elems(v) if contains(i, lambda x: x is h)]
                        if not ix:
                            continue
                        offs = sorted({idiff(i, h) for i in ix}, key=str)
                        mods = [x for x in walk(e.pc) if opn(x, 'imod') and x.a[-2] is size]
                        if not mods:
                            continue
                        isodd = implies(e.pc, eq(mods[0], ONE, True)) or implies(e.pc, NOT(eq(mods[0], ZERO, True)))
                        iseven = implies(e.pc, NOT(eq(mods[0], ONE, True))) or implies(e.pc, eq(mods[0], ZERO, True))
                        want = [0] if isodd else [-1, 0] if iseven else None
                        R.ob('the median is the middle of the sorted samples', True if offs == want else (None if want is None or None in offs else False), e, 'uses %s for %s counts' % (offs, 'odd' if isodd else 'even'))
                        R.ob('the median is the middle of the sorted samples', all(s.seq < e.seq for s in srt), e, 'before sorting')


def guarded(v, a):
    """(condition, index) of the elements of a read in v"""
    out = []

    def go(x, pc, d):
        if d > 12:
            return
        if x.op == 'addr':
            return
        if x.op == 'ite':
            go(x.a[1], AND(pc, x.a[0]), d + 1)
            go(x.a[2], AND(pc, NOT(x.a[0])), d + 1)
            return
        if x.op == 'idx' and x.a[0] is a:
            out.append((pc, x.a[1]))
        for y in x.a:
            if isinstance(y, T):
                go(y, pc, d + 1)
    go(v, TRUE, 0)
    return out


def in_range(en, e, pc, i, size):
    m = [x for x in walk(i) if x.op == 'mu']
    if m:
        iv = interval(en, e, i)
        if iv is None:
            return None
        ok = implies(pc, AND(NOT(ilt(i, ZERO)), ilt(i, size)))
        if ok:
            return True
        lo, hi = idiff(iv[0], ZERO), idiff(iv[1], size)
        if lo is None or hi is None:
            return None
        return lo >= 0 and hi <= 0
    h = [x for x in walk(i) if opn(x, 'idiv') and x.a[-2] is size and idiff(x.a[-1], c(2)) == 0]
    if h:
        d = idiff(i, h[0])
        some = implies(pc, NOT(eq(size, ZERO, True)))
        if d == 0:
            return some
        if d == -1:
            mods = [x for x in walk(pc) if opn(x, 'imod') and x.a[-2] is size]
            even = any(implies(pc, NOT(eq(x, ONE, True))) or implies(pc, eq(x, ZERO, True)) for x in mods)
            return some and even or implies(pc, NOT(ilt(size, c(2))))
        return None
    if idiff(i, ZERO) is not None and idiff(i, ZERO) >= 0:
        k = idiff(i, ZERO)
        if k == 0:
            return implies(pc, NOT(eq(size, ZERO, True)))
        return implies(pc, ilt(i, size))
    d = idiff(i, size)
    if d is not None:
        return d < 0 and (d == -1 and implies(pc, NOT(eq(size, ZERO, True))))
    return None


def before_first(en, L, a):
    """sample 0 goes into what the loop accumulates"""
    s0 = L.s0
    pats = [p for p in L.pats if p is not (L.main[2] if len(L.main) > 2 else None)]
    r = True
    n = 0
    for p in L.pats:
        v = s0.read(p) if s0 is not None else None
        if v is None:
            continue
        if contains(v, lambda x: x.op == 'idx' and x.a[0] is a and x.a[1] is ZERO):
            n += 1
    return n > 0
