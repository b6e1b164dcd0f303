"""Obligations, anchors and reporting shared by all rules."""
import os, sys
import facts, engine
import terms as tm
from terms import *
from engine import fld, idx, deref, addr, implies, sat, equiv, Engine, LOCOPS
from fractions import Fraction
from nf import NF

THIS = raw('obj', 'this')
REG = {}


def rule(pid, technique):
    def deco(f):
        REG[pid] = (f, technique)
        return f
    return deco


class Removed(Exception):
    """a construct the property requires no longer exists: reported as a violation of that rule"""

    def __init__(self, name, detail, fn=None):
        self.name, self.detail, self.fn = name, detail, fn


UNRES = ('mu', 'hv', 'undef', 'unk', 'pat')


def unresolved(t):
    """the term depends on a value the analysis did not follow"""
    return contains(t, lambda x: x.op in UNRES)


class R:
    def __init__(self, pid, P):
        self.pid, self.P = pid, P
        self.obs = []
        self.fns = set()
        self.nev = 0
        self.nloops = 0
        self.paths = 0
        self.notes = []
        self.sites = set()
        self.cache = {}

    # ---------------------------------------------------------------- obligations
    def where(self, at):
        """(file, line, function) of an event, function record or (file, function)"""
        if at is None:
            return ('', 0, '')
        if isinstance(at, engine.Ev):
            f = self.P.fns.get(at.fkey)
            return (at.file, at.line, f['q'] if f else at.fkey)
        if isinstance(at, dict):
            return (os.path.relpath(at['f'], facts.REPO), at.get('l', 0), at.get('q', at.get('key', '')))
        return (at[0], 0, at[1])

    def ob(self, name, ok, at=None, detail='', construct=''):
        """record one obligation; ok is True, False or None (undecided)"""
        f, l, q = self.where(at)
        self.obs.append({'rule': name, 'status': {True: 'ok', False: 'violated', None: 'undecided'}[ok],
                         'file': f, 'line': l, 'function': q, 'detail': detail, 'construct': construct})
        if l:
            self.sites.add((f, l))
        return ok

    def sub(self, fn, *a, **kw):
        """one part of a rule: a construct it cannot follow leaves this part undecided, not the others"""
        try:
            return fn(self, *a, **kw)
        except Removed:
            raise
        except Exception as e:
            if os.environ.get('VSTAT_TRACE'):
                import traceback
                traceback.print_exc()
            self.ob('analysis incomplete: ' + fn.__name__, None, None, '%s: %s' % (type(e).__name__, str(e)[:300]))
            return None

    def eqv(self, name, nf, got, want, at=None, what=''):
        try:
            ok = nf.eq(got, want)
        except RecursionError:
            ok = None
        if not ok and (got is None or unresolved(got)):
            ok = None
        d = what
        if not ok:
            d = '%s: found %s, required %s' % (what, show(got)[:600] if got is not None else 'nothing', show(want)[:600])
        return self.ob(name, ok, at, d)

    # ---------------------------------------------------------------- analysis
    def run(self, q, n=None, inst=None, pred=None, fn=None, **kw):
        f = fn or self.P.fn(q, n, inst=inst, pred=pred)
        setup = kw.pop('setup', None)
        args = kw.pop('args', None)
        this = kw.pop('this', None)
        en = Engine(self.P, **kw)
        en.run(f, this=this, args=args, setup=setup)
        en.root = f
        self.fns |= en.analysed
        self.nev += len(en.events)
        self.nloops += len(en.loops)
        for k in en.unsupported:
            self.notes.append('unsupported: %s in %s:%s' % k)
        return en

    def val(self, en, q, this=THIS, st=None, args=(), n=None, inst=None, pred=None):
        """value returned by a getter on a state (default: the exit state of en)"""
        f = self.P.fn(q, n, inst=inst, pred=pred)
        self.fns.add(f['key'])
        st = st if st is not None else en.final
        k, v, s2 = en.eval_fn(f, this, st, args)
        if k == 'loc':
            return map1(lambda l: s2.read(l), v) if v.op == 'ite' else s2.read(v)
        return v

    def loc(self, en, q, this=THIS, st=None, args=(), n=None, inst=None, pred=None):
        f = self.P.fn(q, n, inst=inst, pred=pred)
        st = st if st is not None else en.final
        k, v, s2 = en.eval_fn(f, this, st, args)
        if k == 'loc':
            return v
        raise facts.ToolError('%s does not return a reference' % q)

    def empty(self, en):
        return engine.State()


def calls(en, name=None, q=None, virtual=None):
    out = []
    for ev in en.events:
        if ev.kind != 'call' or ev.fn is None:
            continue
        if name is not None and ev.name != name:
            continue
        if q is not None and facts.strip_targs(ev.fn['q']) != q:
            continue
        if virtual is not None and (ev.extra == 'virtual') != virtual:
            continue
        out.append(ev)
    return out


def stores(en, pred):
    return [ev for ev in en.events if ev.kind == 'store' and pred(ev.loc)]


def under(l, base):
    """location l is base or inside it (not following pointers)"""
    while True:
        if l is base:
            return True
        if l.op in ('fld', 'idx', 'blk') and isinstance(l.a[0], T):
            l = l.a[0]
        else:
            return False


# ------------------------------------------------------------------ loops and ranges
def when_nan(pc, pred):
    """pc when the values for which pred holds are not a number: every comparison with them is false"""
    memo = {}

    def go(t):
        if t.op != 'ite':
            return t
        r = memo.get(t.id)
        if r is None:
            a = t.a[0]
            if a.op in ('flt', 'fle', 'feq', 'eq') and any(isinstance(x, T) and contains(x, pred) for x in a.a):
                r = go(t.a[2])
            else:
                r = mk(a, go(t.a[1]), go(t.a[2]))
            memo[t.id] = r
        return r
    return go(pc)


def assumed(en, ev=None):
    """what the assertions passed so far establish"""
    t = TRUE
    for a in en.events:
        if a.kind == 'assert' and (ev is None or a.seq < ev.seq):
            if a.val is TRUE or a.pc is FALSE:
                continue
            try:
                t = AND(t, OR(NOT(a.pc), a.val))
            except Exception:
                pass
    return t


def innermost(en, ev, index=None):
    """innermost enclosing loop that carries an induction variable (occurring in index when given)"""
    for key in reversed(ev.loops):
        L = en.loops[key]
        m = L.main or L.main_only
        if m is None:
            continue
        if index is None or contains(index, lambda x: x is m[0]):
            return L
    return None


def interval(en, ev, index):
    """(first, last+1, step) of the values the affine index takes over its loop; (i, i+1, 0) outside loops; None if unknown"""
    if not any(x.op == 'mu' for x in walk(index)):
        return (index, iadd(index, ONE), 0)
    L = innermost(en, ev, index)
    if L is None:
        return None
    m, init, step = L.main or L.main_only
    if L.lo is None or abs(step) != 1:
        return None
    off = idiff(index, m)
    off = isub(index, m)
    if contains(off, lambda x: x is m):
        off2 = iadd(index, m)
        if contains(off2, lambda x: x is m):
            return None
        # index = off2 - m
        return (isub(off2, isub(L.hi, ONE)), iadd(isub(off2, L.lo), ONE), -step)
    return (iadd(L.lo, off), iadd(L.hi, off), step)


def tiles(ivs, lo, hi):
    """the half-open intervals cover [lo, hi) exactly once; None when they cannot be compared"""
    cur = lo
    left = list(ivs)
    while left:
        nxt = [iv for iv in left if idiff(iv[0], cur) == 0]
        if not nxt:
            return False if all(idiff(iv[0], cur) is not None for iv in left) else None
        cur = nxt[0][1]
        left.remove(nxt[0])
    d = idiff(cur, hi)
    if d is None and cv(cur) is not None and free(hi):
        return False        # a fixed number of elements of a container of any size
    return None if d is None else d == 0


def free(t):
    """a plain count the program is given: its value is not bounded by anything"""
    d, k = lin(t)
    return len(d) == 1 and all(x.op == 'init' and x.a[0].op == 'fld' and x.a[0].a[1] == '#size' for x in d)


def reach(en, ev):
    """condition under which control gets to the iteration (or function entry) that contains ev"""
    if not ev.loops:
        return TRUE
    L = en.loops[ev.loops[-1]]
    h = L.head.pc if L.head is not None else TRUE
    if not L.do and L.cond is not None:
        h = AND(h, tobool(L.cond))
    return h


def always(en, ev, given=TRUE, allow=TRUE):
    """ev happens in every iteration that contains it (under `given`, up to what assertions establish)"""
    p = AND(reach(en, ev), given)
    return implies(p, ev.pc, assumed(en, ev))


# ------------------------------------------------------------------ closures
def run_closure(R, lam, **kw):
    """analyse the body of a closure value with its captures bound"""
    f = R.P.fns.get(lam.a[0]) if lam is not None and lam.op == 'lam' else None
    if f is None:
        return None
    this = None
    for cp in lam.a[1]:
        if cp[0] == 'this':
            this = deref(cp[1])

    def setup(en, fr):
        for cp in lam.a[1]:
            if cp[0] == 'this':
                fr.this = deref(cp[1])
            elif cp[1] == 'ref':
                fr.refs[cp[0]] = engine._deref_t(cp[2])
            else:
                l = engine.var('cap~%s' % cp[0])
                en.st.write(l, cp[2])
                fr.refs[cp[0]] = l
    return R.run(None, fn=f, this=this, setup=setup, **kw)


# ------------------------------------------------------------------ whole-loop coverage
def iteration(L):
    """condition under which an iteration of L is entered"""
    h = L.head.pc if L.head is not None else TRUE
    if L.cond is not None and not L.do:
        h = AND(h, tobool(L.cond))
    return h


def full(en, L, given=TRUE):
    """every iteration of L goes on until the loop condition fails"""
    if L.back is None:
        return False
    if getattr(L, 'cond_extra', None) is not None and L.lo is not None and not L.do:
        # the loop condition says more than that the range is not exhausted
        m, init, step = L.main or L.main_only
        more = tobool(ilt(m, L.hi)) if step > 0 else tobool(ilt(isub(L.lo, ONE), m))
        if not implies(AND(L.head.pc if L.head is not None else TRUE, more, given), tobool(L.cond), assumed(en)):
            return False
    return implies(AND(iteration(L), given), L.back.pc, assumed(en))


def apart(pc, key):
    """what pc says that does not depend on the iteration of loop `key` (other iterations need not satisfy the rest)"""
    for a in sorted(atoms(pc), key=lambda x: x.id):
        if contains(a, lambda x: x.op == 'mu' and x.a[0] == key):
            b = mk(a, TRUE, FALSE)
            if sat(AND(pc, b)) and sat(AND(pc, NOT(b))):
                pc = OR(restrict(pc, b), restrict(pc, NOT(b)))
            else:
                pc = restrict(pc, b) if sat(AND(pc, b)) else restrict(pc, NOT(b))
    return pc


def always_all(en, ev, within=None, given=TRUE):
    """ev happens for every value of all its enclosing loops inside iteration `within` (whole function when None)"""
    ks = list(ev.loops)
    if within is not None:
        if within not in ks:
            return False
        ks = ks[ks.index(within) + 1:]
        cur = iteration(en.loops[within])
    else:
        cur = en.entry_pc if getattr(en, 'entry_pc', None) is not None else TRUE
    cur = AND(cur, given)
    asm = assumed(en, ev)
    for k in ks:
        L = en.loops[k]
        if L.s0 is None or not implies(cur, L.s0.pc, asm):
            return False
        if not full(en, L, apart(given, L.key)):
            return False
        cur = AND(iteration(L), given)
    return implies(cur, ev.pc, asm)


def inrange(en, ev, i, lo, hi):
    """condition under which index i, taken over its loop, lies in [lo, hi)"""
    iv = interval(en, ev, i)
    return AND(TRUE if iv is not None and idiff(iv[0], lo) == 0 else NOT(ilt(i, lo)), TRUE if iv is not None and idiff(iv[1], hi) == 0 else ilt(i, hi))


def guarded(en, ev, ix, within, given):
    """ev happens for an index exactly when the index is in its range"""
    if any(isinstance(hi, (list, tuple)) for _, _, hi in ix):
        return False
    q = AND(*[inrange(en, ev, *x) for x in ix])
    return implies(AND(ev.pc, given), q, assumed(en, ev)) and always_all(en, ev, within, AND(given, q))


def clipped(iv, lo, hi):
    """interval iv without what lies outside [lo, hi), where they differ by a constant"""
    a, b = iv[:2]
    d = idiff(a, lo)
    if d is not None and d < 0:
        a = lo
    d = idiff(b, hi)
    if d is not None and d > 0:
        b = hi
    return (a, b) + tuple(iv[2:])


def covers(R, en, name, parts, whole, at, within=None, given=TRUE, what='', want=None):
    """parts = [(event, ((index, lo, hi), ...))] from the outer to the inner index: exactly the product of the ranges,
    each element once.  want: number of index levels."""
    if not parts:
        return R.ob(name, False, at, 'nothing does this%s' % (': ' + what if what else ''))
    ok = True
    why = ''
    clip = set()
    for ev, ix in parts:
        if not always_all(en, ev, within, given):
            # a loop that runs further than the range and skips exactly the excess
            if guarded(en, ev, ix, within, given):
                clip.add(ev.seq)
                continue
            ok, why = None if unresolved_pc(en, ev) else False, 'skipped on some path (%s)' % ev.where()
            return R.ob(name, ok, ev, why + (' ' + what if what else ''))
    lv = len(parts[0][1])
    groups = [((), [(ev, ix) for ev, ix in parts])]
    for d in range(lv):
        nxt = []
        for _, g in groups:
            by = {}
            for ev, ix in g:
                i, lo, hi = ix[d]
                iv = interval(en, ev, i)
                if iv is None:
                    return R.ob(name, None, ev, 'range of %s unknown %s' % (show(i), what))
                if ev.seq in clip:
                    iv = clipped(iv, lo, hi)
                by.setdefault((iv[0].id, iv[1].id), (iv, lo, hi, []))[3].append((ev, ix))
            lo, hi = next(iter(by.values()))[1:3]
            his = hi if isinstance(hi, (list, tuple)) else [hi]
            rs = [tiles([v[0][:2] for v in by.values()], lo, h) for h in his]
            if True not in rs:
                r = False if False in rs else None    # the bounds are the same size written differently
                return R.ob(name, r, g[0][0], 'covers %s of [%s, %s) %s' % ([(show(v[0][0]), show(v[0][1])) for v in by.values()], show(lo), show(his[0]), what))
            nxt += [((), v[3]) for v in by.values()]
        groups = nxt
    for _, g in groups:
        if len(g) > 1:
            # the same element more than once: only on exclusive paths
            for a in range(len(g)):
                for b in range(a):
                    if sat(AND(g[a][0].pc, g[b][0].pc)):
                        return R.ob(name, False, g[a][0], 'done twice (%s and %s) %s' % (g[b][0].where(), g[a][0].where(), what))
    return R.ob(name, ok, parts[0][0], why)


def unresolved_pc(en, ev):
    """the path condition depends on opaque values (so that skipping cannot be judged)"""
    return any(contains(t, lambda x: x.op in ('unk', 'undef', 'pat')) for t in atoms(ev.pc))


def sources(en, t, out=None, seen=None, stop=None):
    """the values a loop-carried value can have been given: followed round the loops back to what was stored"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if t in seen:
        return out
    seen.add(t)
    if stop is not None and stop(t):
        out.append(t)
    elif t.op == 'ite':
        for x in t.a[1:]:
            sources(en, x, out, seen, stop)
    elif t.op == 'mu' and t.a[0] in en.loops and en.loops[t.a[0]].back is not None and t.a[1].op in LOCOPS:
        L = en.loops[t.a[0]]
        sources(en, L.s0.read(t.a[1]), out, seen, stop)
        sources(en, L.back.read(t.a[1]), out, seen, stop)
    elif t not in out:
        out.append(t)
    return out
