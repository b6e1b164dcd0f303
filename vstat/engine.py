"""Gated value-numbering abstract interpreter over the extracted typed syntax trees.

One pass over each function's structured statements, with statically resolved in-repository callees
inlined.  Branches are joined (never enumerated) with gated values; loops are solved to an optimistic
fixpoint over head values, with induction variables recognised from the head/back-edge values.
Everything the rules need is recorded as events (calls, stores, constructions, destructions, returns)
with the path condition (a decision diagram over atoms), the enclosing loops and a state snapshot.
"""
import re
from terms import *
import facts
import terms as tm
from facts import ToolError

STAR = raw('*')
MAXDEPTH = 40


def nodes(n):
    if isinstance(n, list):
        for x in n:
            yield from nodes(x)
    elif isinstance(n, dict):
        if 'k' in n:
            yield n
        for y, x in n.items():
            if y not in ("T", "fn") and isinstance(x, (dict, list)):
                yield from nodes(x)


# ------------------------------------------------------------------ locations
def var(uid):
    return raw('var', uid)


def fld(b, n):
    return raw('fld', b, n)


def idx(b, *i):
    return raw('idx', b, *i)


def deref(p):
    if p.op == 'addr':
        return p.a[0]
    return raw('deref', p)


def addr(l):
    if l.op == 'deref':
        return l.a[0]
    return raw('addr', l)


PLAINPTR = ('addr', 'new', 'null', 'init', 'c')


def _deref_t(p):
    if p.op == 'ite':
        return map1(deref, p)
    return deref(p)


tm.REBUILD['deref'] = _deref_t
tm.REBUILD['addr'] = lambda l: map1(addr, l)


def _select_step(v, l):
    pass


_path_memo = {}


def path(l):
    """(root, steps) of a location; a pointer loaded from an initial location continues its path"""
    r = _path_memo.get(l.id)
    if r is None:
        if l.op == 'fld':
            p = path(l.a[0])
            r = (p[0], p[1] + (('f', l.a[1]),))
        elif l.op == 'idx':
            p = path(l.a[0])
            r = (p[0], p[1] + (('i',) + l.a[1:],))
        elif l.op == 'blk':
            p = path(l.a[0])
            r = (p[0], p[1] + (('b',) + l.a[1:],))
        elif l.op == 'deref' and l.a[0].op == 'init':
            p = path(l.a[0].a[0])
            r = (p[0], p[1] + (('d',),))
        else:
            r = (l, ())
        _path_memo[l.id] = r
    return r


def step_loc(b, s_):
    if s_[0] == 'f':
        return fld(b, s_[1])
    if s_[0] == 'i':
        return idx(b, *s_[1:])
    if s_[0] == 'b':
        return raw('blk', b, *s_[1:])
    if s_[0] == 'd':
        return deref(raw('init', b))
    raise AssertionError(s_)


def _rng(a, la, b, lb):
    """relation of [a,a+la) and [b,b+lb): 'no','eq','in'(first inside second),'out','may'"""
    d = idiff(b, a)
    n, m = cv(la), cv(lb)
    if a is b and la is lb:
        return 'eq'
    # disjoint when b >= a+la or a >= b+lb
    x = idiff(b, iadd(a, la))
    y = idiff(a, iadd(b, lb))
    if (x is not None and x >= 0) or (y is not None and y >= 0):
        return 'no'
    e1, e2 = idiff(iadd(a, la), iadd(b, lb)), d
    if e1 is not None and e2 is not None:
        if e2 <= 0 and e1 <= 0:
            return 'in'
        if e2 >= 0 and e1 >= 0:
            return 'out'
    return 'may'


def step_rel(p, q):
    """relation of two sibling selector steps"""
    if p == q:
        return 'eq'
    if p[0] == 'f' or q[0] == 'f':
        return 'no'
    if p[0] == 'd' or q[0] == 'd':
        return 'may'
    if p[0] == 'i' and q[0] == 'i':
        if len(p) != len(q):
            # vector element written as (i) or (i,0)
            if len(p) == 3 and p[2] is ZERO:
                p = p[:2]
            if len(q) == 3 and q[2] is ZERO:
                q = q[:2]
            if len(p) != len(q):
                return 'may'
        res = 'eq'
        for x, y in zip(p[1:], q[1:]):
            if x is y:
                continue
            if x is STAR:
                if res == 'eq':
                    res = 'cov'
                continue
            if y is STAR:
                res = 'may' if res != 'eq' else 'cov2'
                continue
            if x.op == 's' and y.op == 's':
                return 'no'
            d = idiff(x, y)
            if d is not None and d != 0:
                return 'no'
            if d is None:
                res = 'may'
        return res
    # rectangles
    def rect(s_):
        if s_[0] == 'b':
            return s_[1:]
        i = s_[1]
        j = s_[2] if len(s_) > 2 else ZERO
        return (i, j, ONE, ONE)
    a, b = rect(p), rect(q)
    if STAR in a or STAR in b:
        return 'may'
    r, cc = _rng(a[0], a[2], b[0], b[2]), _rng(a[1], a[3], b[1], b[3])
    if r == 'no' or cc == 'no':
        return 'no'
    return 'may' if 'may' in (r, cc) else 'in' if all(x in ('in', 'eq') for x in (r, cc)) and (r, cc) != ('eq', 'eq') else 'out' if all(x in ('out', 'eq') for x in (r, cc)) and (r, cc) != ('eq', 'eq') else 'eq' if (r, cc) == ('eq', 'eq') else 'may'


_rel_memo = {}


def rel(p, q):
    """relation of location p to q: 'eq', 'anc' (p contains q), 'desc', 'may', 'no'"""
    if p is q:
        return 'eq'
    k = (p.id, q.id)
    r = _rel_memo.get(k)
    if r is None:
        r = _rel_memo[k] = _rel(p, q)
    return r


def _rel(p, q):
    rp, sp = path(p)
    rq, sq = path(q)
    if rp is not rq:
        return 'no'
    may = False
    for x, y in zip(sp, sq):
        r = step_rel(x, y)
        if r == 'eq' or r == 'cov':
            continue
        if r == 'no':
            return 'no'
        if r == 'out':      # p's block contains q's
            if x is sp[-1] and not may:
                return 'anc'
            may = True
            continue
        if r == 'in':
            if y is sq[-1] and not may:
                return 'desc'
            may = True
            continue
        may = True
    if may:
        return 'may'
    if len(sp) == len(sq):
        return 'eq'
    return 'anc' if len(sp) < len(sq) else 'desc'


# ------------------------------------------------------------------ values of parts
def select(v, s_, l):
    """part of aggregate value v selected by step s_; l is the location it is read from"""
    if v.op == 'ite':
        return map1(lambda x: select(x, s_, l), v)
    o = v.op
    if o == 'init':
        return raw('init', step_loc(v.a[0], s_))
    if o == 'mu':
        return raw('mu', v.a[0], step_loc(v.a[1], s_))
    if o == 'hv':
        return raw('hv', v.a[0], step_loc(v.a[1], s_), *v.a[2:])
    if o == 'agg':
        base, ov = v.a
        best = None
        for st, val in reversed(ov):
            k = step_rel(st[0], s_)
            if k == 'no':
                continue
            if k == 'eq' and len(st) == 1:
                return val
            if k == 'eq':
                sub = [(x[1:], y) for x, y in ov if len(x) > 1 and step_rel(x[0], s_) == 'eq']
                b = select(base, s_, l)
                for x, y in ov:
                    if len(x) == 1 and step_rel(x[0], s_) == 'eq':
                        b = y
                return raw('agg', b, tuple(sub))
            return raw('sel', v, s_)
        return select(base, s_, l)
    if o == 'tup' and s_[0] == 'i' and len(s_) >= 2:
        k = cv(s_[1])
        if k is not None and (len(s_) == 2 or s_[2] is ZERO) and 0 <= k < len(v.a):
            return v.a[int(k)]
    if o == 'rec' and s_[0] == 'f':
        for n, x in v.a:
            if n == s_[1]:
                return x
    if o == 'app':
        n = v.a[0]
        if s_[0] in ('i', 'b'):
            if n == 'Zero':
                return ZERO if s_[0] == 'i' else app('Zero')
            if n == 'Const':
                return v.a[1]
        if s_[0] == 'f' and s_[1] in ('#rows', '#cols', '#size') and n in ('Zero', 'Const', 'Identity', 'Uninit'):
            pass
    if o in ('+', '-') and len(v.a) == 2 and s_[0] == 'i':
        return arith(o, select(v.a[0], s_, l), select(v.a[1], s_, l))
    if v is UNDEF:
        return UNDEF
    return raw('sel', v, s_)


# ------------------------------------------------------------------ state
class State:
    __slots__ = ('env', 'owned', 'wild', 'pc')

    def __init__(self):
        self.env, self.owned, self.wild, self.pc = {}, set(), (), TRUE

    def copy(self):
        n = State()
        n.env = dict(self.env)
        n.wild, n.pc = self.wild, self.pc
        self.owned = set()
        return n

    _stamp = [0]

    def stamp(self):
        State._stamp[0] += 1
        return State._stamp[0]

    def write(self, l, v):
        root = path(l)[0]
        d = self.env.get(root)
        if d is None or root not in self.owned:
            d = dict(d) if d else {}
            self.env[root] = d
            self.owned.add(root)
        else:
            pass
        if len(d) > 4 and v.op != 'agg':
            kill = [k for k in d if k is not l and rel(l, k) == 'anc']
            for k in kill:
                del d[k]
        d[l] = (v, self.stamp())

    def havoc(self, pattern, tag):
        """forget everything under pattern: reads give (tag.. , loc)"""
        self.wild = self.wild + ((pattern, self.stamp(), tag, TRUE),)

    _reading = []

    def read(self, l):
        st = State._reading
        if len(st) > 60:
            return raw('unk', 'deep', st[0])    # a chain of links the analysis cannot follow
        st.append(l)
        try:
            return self._read(l)
        finally:
            st.pop()

    def _read(self, l):
        root, steps = path(l)
        if root.op == 'deref' and root.a[0].op == 'ite':
            p = root.a[0]
            return map1(lambda x: self.read(_reroot(l, root, deref(x))), p)
        d = self.env.get(root)
        best, bst, bk = None, -1, None
        over, mays = [], []
        if d:
            for k, (v, stp) in d.items():
                if k is l:
                    r = 'eq'
                else:
                    r = rel(k, l)
                    if r == 'no':
                        continue
                if r in ('eq', 'anc'):
                    if r == 'anc' and v.op in PLAINPTR and any(x[0] == 'd' for x in steps[len(path(k)[1]):]):
                        continue    # the pointer was given another value: what it pointed to before is unchanged
                    if stp > bst:
                        best, bst, bk = k, stp, v
                elif any(x[0] == 'd' for x in path(k)[1][len(steps):]):
                    continue        # reached through a pointer: not part of the value
                elif r == 'desc':
                    over.append((stp, k, v))
                else:
                    mays.append((stp, k, v))
        if best is None:
            base = raw('init', l)
        elif best is l or rel(best, l) == 'eq':
            base = bk
        else:
            base = bk
            bp, lp = path(best)[1], path(l)[1]
            cur = best
            if bp and lp[:len(bp)] != bp:
                # nested blocks: not a plain prefix
                x, y = bp[-1], lp[len(bp) - 1]
                if x[0] == 'b' and y[0] in ('i', 'b'):
                    if y[0] == 'i':
                        rel_s = ('i', isub(y[1], x[1]), isub(y[2] if len(y) > 2 else ZERO, x[2]))
                    else:
                        rel_s = ('b', isub(y[1], x[1]), isub(y[2], x[2]), y[3], y[4])
                    base = select(base, rel_s, cur)
                    for s_ in lp[len(bp):]:
                        base = select(base, s_, cur)
                else:
                    for s_ in lp[len(bp):]:
                        base = self._sel(base, s_)
            else:
                for s_ in lp[len(bp):]:
                    base = self._sel(base, s_)
        # widened locations
        for (pat, stp, tag, guard) in self.wild:
            if stp < bst or path(pat)[0] is not root:
                continue
            r = rel(pat, l)
            if r == 'no' or any(x[0] == 'd' for x in path(pat)[1][len(steps):]):
                continue
            nv = raw(*(tag + (l,))) if tag[0] != 'hv' else raw('hv', tag[1], l)
            base = ite(guard, nv, base)
            bst = stp
        over = sorted([o for o in over if o[0] > bst], key=lambda t: t[0])
        mays = sorted([o for o in mays if o[0] > bst], key=lambda t: t[0])
        if mays:
            base = raw('mayw', base, tuple((k, v) for _, k, v in mays), l)
        if over:
            n = len(steps)
            ovs = {}
            for stp, k, v in over:
                ks = path(k)[1]
                if ks[:n] != steps:
                    # block inside block etc.
                    x, y = steps[-1], ks[n - 1]
                    rs = []
                    if x[0] == 'b' and y[0] == 'i':
                        rs = [('i', isub(y[1], x[1]), isub(y[2] if len(y) > 2 else ZERO, x[2]))]
                    elif x[0] == 'b' and y[0] == 'b':
                        rs = [('b', isub(y[1], x[1]), isub(y[2], x[2]), y[3], y[4])]
                    ks2 = tuple(rs) + ks[n:]
                else:
                    ks2 = ks[n:]
                if not ks2:
                    continue
                ovs.pop(ks2, None)
                ovs[ks2] = v
            if base.op == 'agg':
                o2 = dict(base.a[1])
                for k2, v2 in ovs.items():
                    for k3 in [k3 for k3 in o2 if k3[:len(k2)] == k2]:
                        o2.pop(k3)
                    o2[k2] = v2
                base = raw('agg', base.a[0], tuple(o2.items()))
            elif base.op == 'ite':
                base = raw('agg', base, tuple(ovs.items()))
            else:
                base = raw('agg', base, tuple(ovs.items()))
        if base.op == 'ite':
            base = restrict(base, self.pc)
        return base

    def _sel(self, base, s_):
        if s_[0] == 'd':
            return map1(lambda p: self.read(deref(p)), base)
        return select(base, s_, None)


def _reroot(l, old, new):
    if l is old:
        return new
    return step_loc(_reroot(l.a[0], old, new), path(l)[1][-1]) if l.op in ('fld', 'idx', 'blk') else l


def merge(s1, s2):
    if s1 is None or s1.pc is FALSE:
        return s2
    if s2 is None or s2.pc is FALSE:
        return s1
    pc = OR(s1.pc, s2.pc)
    c1 = restrict(s1.pc, pc)
    n = State()
    n.pc = pc
    # wild lists: common prefix, then guarded
    w1, w2 = s1.wild, s2.wild
    k = 0
    while k < len(w1) and k < len(w2) and w1[k] == w2[k]:
        k += 1
    nw = list(w1[:k])
    nw += [(p, st, tag, AND(g, c1)) for p, st, tag, g in w1[k:]]
    nw += [(p, st, tag, AND(g, NOT(c1))) for p, st, tag, g in w2[k:]]
    nw.sort(key=lambda t: t[1])
    n.wild = tuple(nw)
    roots = list(dict.fromkeys(list(s1.env) + list(s2.env)))
    for r in roots:
        d1, d2 = s1.env.get(r), s2.env.get(r)
        if d1 is d2:
            n.env[r] = d1
            continue
        if r.op == 'var' and (d1 is None or d2 is None):
            n.env[r] = d1 or d2      # variable out of scope on one side
            continue
        d1, d2 = d1 or {}, d2 or {}
        keys = sorted(set(d1) | set(d2), key=lambda x: (len(path(x)[1]), x.id))
        nd, redo = {}, []
        for l in keys:
            e1, e2 = d1.get(l), d2.get(l)
            if e1 == e2 and not any(rel(x, l) in ('anc', 'may') for x in redo):
                nd[l] = e1
                continue
            v1, v2 = s1.read(l), s2.read(l)
            if v1.op == 'agg' or v2.op == 'agg':
                # element overlays are merged at their own keys; keep the base here
                b1 = e1[0] if e1 else _base_read(s1, l)
                b2 = e2[0] if e2 else _base_read(s2, l)
                v1, v2 = b1, b2
            nd[l] = (ite(c1, v1, v2), n.stamp())
            redo.append(l)
        n.env[r] = nd
        n.owned.add(r)
    return n


def _base_read(s_, l):
    v = s_.read(l)
    while v.op == 'agg':
        v = v.a[0]
    return v


def merge_all(ss):
    r = None
    for x in ss:
        r = merge(r, x) if r is not None else x
    return r


# ------------------------------------------------------------------ events
class Ev:
    __slots__ = ('id', 'kind', 'fn', 'name', 'recv', 'args', 'pc', 'loops', 'stack', 'st', 'file', 'line', 'ret', 'loc', 'val', 'old', 'fkey', 'depth', 'extra', 'seq', 'mut', 'tr')

    def where(self):
        return '%s:%s' % (self.file, self.line)

    def __repr__(self):
        a = ', '.join('%s=%s' % (show(l) if l is not None else '', show(v) if v is not None else '') for l, v in (self.args or []))
        if self.kind == 'store':
            return '#%d store %s := %s  pc=%s loops=%s @%s' % (self.seq, show(self.loc), show(self.val), show(self.pc), self.loops, self.where())
        return '#%d %s %s recv=%s (%s) pc=%s loops=%s @%s' % (self.seq, self.kind, self.name, show(self.recv) if self.recv is not None else '', a, show(self.pc), self.loops, self.where())


class Loop:
    def __init__(self):
        self.ivs = {}
        self.resolved = {}
        self.breaks = []
        self.pats = []


class Frame:
    def __init__(self, fn, this, act):
        self.fn, self.this, self.act = fn, this, act
        self.refs = {}
        self.rets = []
        self.lp = []        # stack of loop control frames
        self.T = fn['T']


LOCOPS = ('var', 'obj', 'glob', 'fld', 'idx', 'blk', 'deref')


class Ctl:
    def __init__(self):
        self.brk, self.cont = [], []


EIG = 'Eigen::'
SMART = ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::__uniq_ptr_impl')
VECS = ('std::vector', 'std::array', 'std::deque', 'std::_Vector_base', 'std::__array_traits')


def isq(q, names):
    return any(q == n or q.startswith(n + '::') for n in names)


_fixed = re.compile(r'Eigen::(?:Matrix|Array)<(?:const )?(\w+), (-?\d+), (-?\d+)')


class Engine:
    def __init__(self, prog, opaque=(), assume=(), dispatch=None, maxloop=14, timers=False, quiet=()):
        self.P = prog
        self.opaque = set(opaque)
        self.timers = timers
        self.quiet = set(quiet)
        self.assume = assume
        self.dispatch = dispatch or {}
        self.events = []
        self.loops = {}
        self.lnum = {}
        self.evnum = {}
        self.act = {}
        self.callstack = []      # (fn key, site)
        self.loopctx = []
        self.birth = {}
        self.frames = []
        self.maxloop = maxloop
        self.analysed = set()
        self.opaque_called = {}
        self.unsupported = {}
        self.thrown = []
        self.trystack = []
        self.watch = None
        self.volatile = ()
        self.st = None
        self.nev = 0

    # ------------------------------------------------------------ utils
    def site(self, e):
        f = self.frames[-1].fn if self.frames else None
        return (f['key'] if f else '', e.get('l', 0), e.get('c', 0))

    def stack_id(self):
        return tuple(self.callstack)

    def evid(self, kind, e, extra=''):
        c0 = e.get('c', 0)
        k = (self.stack_id(), kind, e.get('l', 0), c0 if isinstance(c0, int) else 0, extra)
        i = self.evnum.get(k)
        if i is None:
            i = self.evnum[k] = len(self.evnum) + 1
        return i

    def event(self, kind, e, **kw):
        ev = Ev()
        for s_ in Ev.__slots__:
            setattr(ev, s_, None)
        ev.kind = kind
        f = self.frames[-1].fn
        ev.file = f['f'].split('/repo/')[-1] if '/repo/' in f['f'] else f['f']
        ev.line = e.get('l', 0)
        ev.fkey = f['key']
        ev.pc = self.st.pc
        ev.loops = tuple(self.loopctx)
        ev.stack = tuple(self.callstack)
        ev.args = []
        ev.depth = len(self.frames)
        ev.tr = len(self.trystack)
        for k, v in kw.items():
            setattr(ev, k, v)
        if ev.id is None:
            ev.id = self.evid(kind, e, (ev.name or '', kw.get('loc').id if kw.get('loc') is not None else 0))
        ev.st = self.st.copy()
        self.nev += 1
        ev.seq = len(self.events)
        self.events.append(ev)
        return ev

    def ty(self, e):
        t = e.get('t', -1)
        return self.frames[-1].T[t] if t is not None and t >= 0 else {'s': '?', 'k': 'other', 'ref': 0, 'cst': False}

    def note(self, what, e):
        self.unsupported[(what, self.frames[-1].fn['key'], e.get('l', 0))] = 1

    # ------------------------------------------------------------ state access
    def rd(self, l):
        return map1(lambda x: self.st.read(x), l) if l.op == 'ite' else self.st.read(l)

    def wr(self, l, v, e=None, quiet=False):
        if l.op == 'ite':
            for p, x in cases(l):
                old = self.st.read(x)
                self.st.write(x, ite(p, v, old))
                if e is not None and not quiet:
                    self.event('store', e, loc=x, val=v, old=old, pc=AND(self.st.pc, p))
            return
        old = None
        if e is not None and not quiet:
            self.event('store', e, loc=l, val=v)
        self.st.write(l, v)

    def local(self, fr, vid, name):
        l = fr.refs.get(vid)
        if l is not None:
            return l
        uid = '%s.%s~%s' % (fr.act, name, vid)
        l = var(uid)
        return l

    # ------------------------------------------------------------ entry
    def run(self, fn, this=None, args=None, setup=None):
        fn = self.P.fns[fn] if isinstance(fn, str) else fn
        self.st = State()
        for a in self.assume:
            self.st.pc = AND(self.st.pc, a)
        self.root_this = this if this is not None else raw('obj', 'this')
        fr = Frame(fn, self.root_this, 'e0')
        for i, p in enumerate(fn['ps']):
            t = fn['T'][p['t']]
            if args and i < len(args) and args[i] is not None:
                l = args[i]
            else:
                l = raw('obj', 'arg%d' % i)
            fr.refs[p['id']] = l
        if setup:
            setup(self, fr)
        self.entry_frame = fr
        st = self.exec_fn(fr, fn)
        self.final = self.st
        self.ret = st
        return self

    def exec_fn(self, fr, fn):
        """run the function body in frame fr from self.st; returns the return value; self.st is the exit state"""
        self.analysed.add(fn['key'])
        self.frames.append(fr)
        if fn.get('ctor'):
            self.ctor_inits(fr, fn)
        out = self.stmt(fn['b']) if self.st is not None and self.st.pc is not FALSE else None
        rs = fr.rets
        if self.st is not None and out:
            rs = rs + [(self.st, None)]
        val = None
        if rs:
            for s_, v in rs:
                pass
            states = []
            rl = var(fr.act + '.ret')
            for s_, v in rs:
                if v is not None:
                    s_.write(rl, v)
                states.append(s_)
            self.st = merge_all(states)
            if any(v is not None for _, v in rs):
                val = self.st.read(rl)
                if val.op == 'agg':
                    pass
        else:
            self.st = None
        self.frames.pop()
        return val

    def ctor_inits(self, fr, fn):
        for i in fn.get('inits') or []:
            if self.st is None:
                return
            if i.get('f'):
                l = fld(fr.this, i['f'])
                self.init_loc(l, i['i'], self.ftype(fn, i['f']))
            elif i.get('base') is not None or i.get('deleg'):
                e = i['i']
                if e and e['k'] == 'ctor':
                    self.construct(e, fr.this)

    def ftype(self, fn, name):
        r = self.P.recs.get(fn.get('cls'))
        if r:
            for f in r['fs']:
                if f['n'] == name:
                    return r['T'][f['t']]
        return None

    def eval_fn(self, fn, this, st, args=()):
        """value (or ('loc', l)) of calling fn on a given state; no events are recorded"""
        ev0, fr0, st0, cs0 = self.events, self.frames, self.st, self.callstack
        self.events, self.frames, self.callstack = [], [], [('<query>', len(self.evnum), 0)]
        self.st = st.copy()
        try:
            fr = Frame(fn, this, 'q%d' % len(self.act))
            self.act[('q', len(self.act))] = fr.act
            for p, a in zip(fn['ps'], args):
                if a.op in LOCOPS:
                    fr.refs[p['id']] = a
                else:
                    l = var('%s.%s~%s' % (fr.act, p['n'], p['id']))
                    self.st.write(l, a)
                    fr.refs[p['id']] = l
            v = self.exec_fn(fr, fn)
            qs = self.st
        finally:
            self.events, self.frames, self.st, self.callstack = ev0, fr0, st0, cs0
        rt = fn['T'][fn['rt']] if fn.get('rt', -1) >= 0 else None
        if rt is not None and v is not None and (rt['ref'] or rt.get('rq') in ('Eigen::Block', 'Eigen::VectorBlock', 'Eigen::Ref') and v.op in ('addr', 'ite')):
            return ('loc', _deref_t(v), qs)
        return ('val', v, qs)

    # ------------------------------------------------------------ statements: return True when control can fall out
    def dead(self):
        return self.st is None or self.st.pc is FALSE

    def stmt(self, s_):
        if s_ is None:
            return not self.dead()
        if self.dead():
            return False
        f = getattr(self, 's_' + s_['k'], None)
        if f is None:
            self.note('stmt ' + s_['k'] + ' ' + s_.get('sc', ''), s_)
            return True
        r = f(s_)
        return not self.dead()

    def s_null(self, s_):
        pass

    def s_unk(self, s_):
        self.note('stmt ' + s_.get('sc', ''), s_)

    def s_expr(self, s_):
        self.ev(s_['e'], discard=True)

    def s_blk(self, s_):
        fr = self.frames[-1]
        scope = []
        fr_scopes = fr.__dict__.setdefault('scopes', [])
        fr_scopes.append(scope)
        for x in s_['b']:
            if not self.stmt(x):
                break
        fr_scopes.pop()
        if not self.dead():
            self.destroy(scope, s_)

    def destroy(self, scope, s_):
        for (l, t, d) in reversed(scope):
            self.dtor(l, t, {'l': s_['e'] if isinstance(s_.get('e'), int) else s_.get('l', 0), 'c': 0, 'k': 'dtor'}, d)

    def dtor(self, l, t, e, d):
        if self.dead():
            return
        q = t.get('rq', '')
        if not self.timers and q == 'altro::Stopwatch':
            return
        if q in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock'):
            if q == 'std::unique_lock':
                owns = self.st.read(fld(l, '#owns'))
                m = self.st.read(fld(l, '#m'))
                if owns is FALSE:
                    return
            else:
                m = self.st.read(fld(l, '#m'))
            self.unlock(_deref_t(m), e, owns if q == 'std::unique_lock' else TRUE)
            return
        key = (t.get('rec') or '') + '::<dtor>()'
        fn = self.P.fns.get(key)
        if t.get('tdtor') is False and not q.startswith('Eigen::') and not q.startswith('std::'):
            self.event('dtor', e, name=q, recv=l)
        if fn and fn.get('b') and not fn.get('impl'):
            self.inline(fn, l, [], e)

    def lock(self, m, e):
        self.event('lock', e, name='lock', recv=m, val=self.st.read(fld(m, '#held')))
        self.st.write(fld(m, '#held'), TRUE)

    def unlock(self, m, e, owns=TRUE):
        old = self.st.read(fld(m, '#held'))
        owns = tobool(owns)
        self.event('unlock', e, name='unlock', recv=m, val=old, pc=AND(self.st.pc, owns))
        self.st.write(fld(m, '#held'), ite(owns, FALSE, old))

    def s_decl(self, s_):
        fr = self.frames[-1]
        for v in s_['vs']:
            t = fr.T[v['t']]
            if self.dead():
                return
            if v.get('static'):
                l = raw('glob', v['n'] + '@' + fr.fn['key'])
                fr.refs[v['id']] = l
                continue
            if t['ref']:
                if v.get('i'):
                    fr.refs[v['id']] = self.bind_ref(v['i'], t, v)
                continue
            l = self.local(fr, v['id'], v['n'])
            fr.refs[v['id']] = l
            self.birth[l] = tuple(self.loopctx)
            if v.get('i') is not None:
                self.init_loc(l, v['i'], t)
            else:
                self.st.write(l, UNDEF)
            if t['k'] == 'rec' and t.get('tdtor') is False and not t['ref']:
                sc = fr.__dict__.get('scopes')
                if sc:
                    sc[-1].append((l, t, v))

    def bind_ref(self, e, t, v):
        """location a reference is bound to"""
        if e.get('lv') or e['k'] in ('mcl', 'opc', 'cal', 'cond') and self.ret_ref(e):
            return self.lv(e)
        if self.view(e):
            return self.lv(e)
        l = var('%s.tmp@%s:%s~%s' % (self.frames[-1].act, e.get('l'), e.get('c'), v.get('id', v.get('n', ''))))
        self.birth[l] = tuple(self.loopctx)
        self.init_loc(l, e, t)
        return l

    def ret_ref(self, e):
        f = e.get('fn')
        if not f:
            return False
        T = self.frames[-1].T
        return f.get('rt', -1) >= 0 and T[f['rt']]['ref'] != 0

    def view(self, e):
        """an expression denoting an Eigen view of an lvalue"""
        t = self.ty(e)
        s_ = t['s']
        return t.get('rq', '').startswith(('Eigen::Block', 'Eigen::VectorBlock', 'Eigen::Ref', 'Eigen::Map')) and e['k'] in ('mcl', 'opc')

    def init_loc(self, l, e, t=None):
        """initialise location l from expression e"""
        if e is None:
            return
        k = e['k']
        if t is not None and t.get('rq') in ('Eigen::Block', 'Eigen::VectorBlock', 'Eigen::Ref') and not t['ref']:
            # a view held by value: remember the viewed location
            src = self.viewed(e)
            if src is not None:
                self.st.write(l, addr(src))
                fr = self.frames[-1]
                self.__dict__.setdefault('viewlocs', {})[l] = src
                self.alias(l, src)
                return
        if k == 'ctor':
            self.construct(e, l)
            return
        v = self.ev(e)
        if self.dead():
            return
        self.st.write(l, v)

    def alias(self, l, src):
        fr = self.frames[-1]
        for vid, x in list(fr.refs.items()):
            if x is l:
                fr.refs[vid] = src

    def viewed(self, e):
        while e['k'] == 'ctor' and len(e['as']) >= 1 and e['fn']['cq'].startswith('Eigen::'):
            e = e['as'][0]
        while e['k'] == 'cast':
            e = e['a']
        if e.get('lv') or e['k'] in ('mcl', 'opc'):
            try:
                return self.lv(e)
            except NotLv:
                return None
        return None

    def s_if(self, s_):
        if s_.get('init'):
            self.stmt(s_['init'])
        if s_.get('var'):
            self.s_decl({'vs': [s_['var']], 'l': s_['l']})
        cd = self.cond(s_['i'])
        if self.dead():
            return
        base = self.st
        s1 = base.copy()
        s1.pc = AND(base.pc, cd)
        s2 = base
        s2.pc = AND(base.pc, NOT(cd))
        self.st = s1 if s1.pc is not FALSE else None
        if self.st:
            self.stmt(s_['a'])
        r1 = self.st if not self.dead() else None
        self.st = s2 if s2.pc is not FALSE else None
        if self.st and s_.get('b'):
            self.stmt(s_['b'])
        r2 = self.st if not self.dead() else None
        self.st = merge(r1, r2)

    def cond(self, e):
        v = self.ev(e)
        if v is None or self.dead():
            return FALSE
        return restrict(tobool(v), self.st.pc)

    def s_ret(self, s_):
        fr = self.frames[-1]
        v = None
        if s_.get('e') is not None:
            rt = fr.T[fr.fn['rt']]
            e = s_['e']
            if rt['ref']:
                v = map1(addr, self.lv(e))
            elif rt['k'] == 'rec' and rt.get('rq') in ('Eigen::Block', 'Eigen::VectorBlock', 'Eigen::Ref') and self.viewed(e) is not None:
                v = map1(addr, self.viewed(e))
            else:
                v = self.ev(e)
        if self.dead():
            return
        # destructors of all open scopes of this frame
        for sc in reversed(fr.__dict__.get('scopes', [])):
            self.destroy(sc, s_)
        if self.dead():
            return
        if len(self.frames) == 1:
            self.event('ret', s_, val=v, name='return')
        fr.rets.append((self.st, v))
        self.st = None

    def scope_depth(self):
        return len(self.frames[-1].__dict__.get('scopes', []))

    def leave_loop(self, depth, s_):
        for sc in reversed(self.frames[-1].__dict__.get('scopes', [])[depth:]):
            self.destroy(sc, s_)

    def s_brk(self, s_):
        c_ = self.frames[-1].lp[-1]
        self.leave_loop(c_.depth, s_)
        c_.brk.append(self.st)
        if c_.loop is not None:
            c_.loop.brk_sites.append((self.st.pc, s_['l']))
        self.st = None

    def s_cont(self, s_):
        for c_ in reversed(self.frames[-1].lp):
            if c_.loop is not None:
                break
        self.leave_loop(c_.depth, s_)
        c_.cont.append(self.st)
        self.st = None

    def s_switch(self, s_):
        v = self.ev(s_['i'])
        if self.dead():
            return
        ctl = Ctl()
        ctl.depth = self.scope_depth()
        ctl.loop = None
        fr = self.frames[-1]
        fr.lp.append(ctl)
        body = s_['b']['b'] if s_['b']['k'] == 'blk' else [s_['b']]
        # flatten: list of (labels, stmt)
        items = []
        for x in body:
            labs = []
            while x and x['k'] in ('case', 'default'):
                labs.append(x)
                x = x['b']
            items.append((labs, x))
        rest = self.st
        cur = None
        allcase = FALSE
        for labs, x in items:
            for lb in labs:
                if lb['k'] == 'case':
                    self.st = rest
                    allcase = OR(allcase, eq(v, self.ev(lb['i']), True))
        for labs, x in items:
            if labs:
                cd = FALSE
                for lb in labs:
                    if lb['k'] == 'case':
                        self.st = rest
                        cd = OR(cd, eq(v, self.ev(lb['i']), True))
                    else:
                        cd = OR(cd, NOT(allcase))
                ns = rest.copy()
                ns.pc = AND(rest.pc, cd)
                cur = merge(cur, ns if ns.pc is not FALSE else None)
            self.st = cur
            if not self.dead():
                self.stmt(x)
            cur = self.st if not self.dead() else None
        has_def = any(lb['k'] == 'default' for labs, _ in items for lb in labs)
        outs = list(ctl.brk)
        if cur is not None:
            outs.append(cur)
        if not has_def:
            ns = rest.copy()
            ns.pc = AND(rest.pc, NOT(allcase))
            if ns.pc is not FALSE:
                outs.append(ns)
        fr.lp.pop()
        self.st = merge_all(outs)

    def s_case(self, s_):
        self.stmt(s_['b'])

    s_default = s_case

    def s_try(self, s_):
        exc = raw('exc', self.evid('try', s_))
        base = self.st.copy()
        rec = []
        self.trystack.append(rec)
        self.stmt(s_['b'])
        self.trystack.pop()
        after = self.st if not self.dead() else None
        # handler entry: anything written in the try block may or may not have happened
        outs = []
        at = mk(exc, TRUE, FALSE)
        if after is not None:
            n = after.copy()
            n.pc = AND(n.pc, NOT(at))
            outs.append(n)
        for i, h in enumerate(s_['hs']):
            hs = base.copy()
            hs.pc = AND(base.pc, at)
            for st in ([after] if after is not None else []) + rec:
                for r, d in st.env.items():
                    if base.env.get(r) is d:
                        continue
                    for l, e in d.items():
                        if base.env.get(r, {}).get(l) != e and not (r.op == 'var' and r not in base.env):
                            hs.havoc(l, ('mu', 'exc%d' % exc.a[0]))
            self.st = hs
            if h.get('var'):
                v = h['var']
                l = self.local(self.frames[-1], v['id'], v['n'])
                self.frames[-1].refs[v['id']] = l
                self.st.write(l, raw('excval', exc))
            self.event('catch', {'l': h['l'], 'c': i}, name='catch', extra=exc)
            self.stmt(h['b'])
            if not self.dead():
                outs.append(self.st)
        self.st = merge_all(outs)

    # ------------------------------------------------------------ loops
    def s_for(self, s_):
        fr = self.frames[-1]
        sc = fr.__dict__.setdefault('scopes', [])
        sc.append([])
        if s_.get('init'):
            self.stmt(s_['init'])
        if not self.dead() and not self.unroll(s_):
            self.loop(s_, (lambda: self.cond(s_['i'])) if s_.get('i') else (lambda: TRUE), lambda: self.stmt(s_['b']),
                      (lambda: self.ev(s_['inc'], discard=True)) if s_.get('inc') else None, stop=self.flags(s_.get('i')))
        scope = sc.pop()
        if not self.dead():
            self.destroy(scope, s_)

    def s_while(self, s_):
        self.loop(s_, lambda: self.cond(s_['i']), lambda: self.stmt(s_['b']), None, stop=self.flags(s_['i']))

    def flags(self, cd):
        """conjuncts  f / !f  of a loop condition over local boolean variables that hold on entry: an iteration that
        ends with such a conjunct false leaves the loop (there is no need to look at the rest of the condition)"""
        if cd is None or cd.get('k') != 'bin' or cd.get('op') != '&&':
            return []
        leaves = []

        def strip(e):
            while e.get('k') == 'cast' and isinstance(e.get('a'), dict):
                e = e['a']
            return e

        def go(e):
            e = strip(e)
            if e.get('k') == 'bin' and e.get('op') == '&&':
                go(e['a'])
                go(e['b'])
            else:
                leaves.append(e)
        go(cd)
        out = []
        for e in leaves:
            x, pos_ = e, True
            while x.get('k') == 'un' and x.get('op') == '!':
                x, pos_ = strip(x['a']), not pos_
            if x.get('k') == 'ref' and self.ty(x).get('k') == 'bool':
                out.append((x, pos_))
            elif any(n.get('k') not in ('ref', 'int', 'flt', 'bin', 'cast', 'paren', 'mem', 'this', 'mcl', 'opc', 'sub', 'un') or
                     n.get('k') == 'un' and n.get('op') in ('++', '--') for n in nodes(e)):
                break           # the rest of the condition may have effects
        return [(x, p) for x, p in out if self.flag_value(x, p) is TRUE]

    def flag_value(self, x, p):
        v = self.cond(x)
        return v if p else NOT(v)

    def unroll(self, s_):
        """a loop whose condition is a constant on every iteration is executed iteration by iteration (at most 8)"""
        if not s_.get('init') or not s_.get('i') or not s_.get('inc') or s_['init'].get('k') != 'decl':
            return False
        if any(n.get('k') in ('cal', 'mcl', 'opc', 'ctor', 'asg') for n in nodes(s_['i'])):
            return False
        fr, st0, mark = self.frames[-1], self.st.copy(), len(self.events)
        nret, nthr, loops = len(fr.rets), len(self.thrown), dict(self.loops)
        ctl = Ctl()
        ctl.depth = self.scope_depth()
        ctl.loop = Loop()
        ctl.loop.brk_sites = []
        ok, n = False, 0
        i0 = None
        while n <= 8:
            pc = self.st.pc
            self.st.pc = TRUE
            cd = self.cond(s_['i'])
            self.st.pc = pc
            if cd is FALSE:
                ok = True
                break
            if cd is not TRUE or n == 8:
                break
            self.callstack.append((fr.fn['key'], 'iteration', n))
            fr.lp.append(ctl)
            self.stmt(s_['b'])
            fr.lp.pop()
            back = merge_all(([self.st] if not self.dead() else []) + ctl.cont)
            ctl.cont = []
            self.st = back
            if back is not None:
                self.ev(s_['inc'], discard=True)
            self.callstack.pop()
            n += 1
            if self.dead():
                ok = True
                break
        if not ok:
            del self.events[mark:]
            del fr.rets[nret:]
            del self.thrown[nthr:]
            self.loops = loops
            self.st = st0
            return False
        outs = ([self.st] if not self.dead() else []) + [b for b in ctl.brk if b is not None and b.pc is not FALSE]
        self.st = merge_all(outs)
        if self.st is not None:
            self.st = self.st.copy()
        return True

    def s_do(self, s_):
        self.loop(s_, lambda: self.cond(s_['i']), lambda: self.stmt(s_['b']), None, do=True)

    def s_rfor(self, s_):
        fr = self.frames[-1]
        v = s_['var']
        t = fr.T[v['t']]
        rl = self.bind_ref(s_['r'], {'ref': 1, 'k': 'other', 's': '', 'rq': ''}, {'id': 'range%s' % s_['l']})
        rt = self.ty(s_['r'])
        n = self.size_of(rl, rt)
        iv = var('%s.rfor@%s:%s' % (fr.act, s_['l'], v['n']))
        self.birth[iv] = tuple(self.loopctx)
        self.st.write(iv, ZERO)

        def body():
            i = self.st.read(iv)
            el = idx(rl, i)
            if t['ref']:
                fr.refs[v['id']] = el
            else:
                l = self.local(fr, v['id'], v['n'])
                fr.refs[v['id']] = l
                self.birth[l] = tuple(self.loopctx)
                self.st.write(l, self.rd(el))
            return self.stmt(s_['b'])

        def inc():
            self.st.write(iv, iadd(self.st.read(iv), ONE))
        self.loop(s_, lambda: ilt(self.st.read(iv), n), body, inc, rng=rl)

    def size_of(self, l, t):
        s_ = t['s']
        m = re.match(r'std::array<.*, (\d+)>', s_)
        if m:
            return c(int(m.group(1)))
        m = re.search(r'\[(\d+)\]$', s_)
        if m:
            return c(int(m.group(1)))
        v = self.rd(l)
        if v.op == 'tup':
            return c(len(v.a))
        return self.rd(fld(l, '#size'))

    def loop(self, s_, cond, body, inc, do=False, rng=None, stop=()):
        fr = self.frames[-1]
        sid = (self.stack_id(), fr.fn['key'], s_['l'], s_['k'], id(s_))
        key = self.lnum.get(sid)
        if key is None:
            key = self.lnum[sid] = 'L%d' % (len(self.lnum) + 1)
        s0 = self.st
        pats = {}
        resolved = {}
        guarded = {}
        mark = len(self.events)
        hint = self.__dict__.setdefault('loop_hints', {}).get(key)
        if hint:
            pats = dict(hint)
        tried_resolve = False
        ptrs, notptr = {}, set()     # pointers / iterators stepped through one array: pattern -> (array, reversed)

        def pos(v, V=None):
            if v.op == 'rit':
                v = v.a[0]
            if v.op == 'addr' and v.a[0].op == 'idx' and len(v.a[0].a) == 2 and (V is None or v.a[0].a[0] is V):
                return v.a[0].a[1]
            return None

        def mu(p):
            return raw('mu', key, fld(p, '#pos') if p in ptrs else p)

        def put(p, v):
            if p not in ptrs:
                return v
            a = addr(idx(ptrs[p][0], v))
            return raw('rit', a) if ptrs[p][1] else a

        def get(st_, p):
            v = st_.read(p)
            return pos(v) if p in ptrs else v
        for it in range(self.maxloop * 3):
            del self.events[mark:]
            L = Loop()
            L.key, L.file, L.line, L.fn, L.kind = key, fr.fn['f'], s_['l'], fr.fn['key'], s_['k']
            L.stack, L.outer, L.pc0, L.s0, L.rng = self.stack_id(), tuple(self.loopctx), s0.pc, s0, rng
            L.brk_sites, L.do = [], do
            self.loops[key] = L
            ctl = Ctl()
            ctl.depth = self.scope_depth()
            ctl.loop = L
            nret = len(fr.rets)
            nthr = len(self.thrown)
            st = s0.copy()
            ptrs = {}
            for p in pats:
                if p not in notptr and not contains(p, lambda x: x is STAR):
                    v = s0.read(p)
                    if pos(v) is not None and v.op in ('addr', 'rit'):
                        ptrs[p] = ((v.a[0] if v.op == 'rit' else v).a[0].a[0], v.op == 'rit')
            for p in pats:
                if p not in resolved:
                    if p in ptrs:
                        st.write(p, put(p, mu(p)))
                    else:
                        st.havoc(p, ('mu', key))
            for p, v in resolved.items():
                st.write(p, put(p, v))
            for p, (g0, v) in guarded.items():
                st.write(p, ite(g0, v, mu(p)))
            hstamp = st.stamp()
            hwild = len(st.wild)
            head = st.copy()
            self.st = st
            self.loopctx.append(key)
            fr.lp.append(ctl)
            if do:
                L.cond = None
                body_st = True
                exit_head = None
            else:
                cd = cond()
                L.cond = cd
                exit_head = self.st.copy() if not self.dead() else None
                if exit_head is not None:
                    exit_head.pc = AND(self.st.pc, NOT(cd))
                if not self.dead():
                    self.st.pc = AND(self.st.pc, cd)
            if not self.dead():
                body()
            back = merge_all(([self.st] if not self.dead() else []) + ctl.cont)
            if back is not None and inc:
                self.st = back
                inc()
                back = self.st if not self.dead() else None
            if stop and back is not None and not do:
                self.st = back
                done = OR(*[NOT(self.flag_value(x, p_)) for x, p_ in stop])
                done = restrict(done, back.pc)
                if done is not FALSE:
                    bs = back.copy()
                    bs.pc = AND(back.pc, done)
                    if bs.pc is not FALSE:
                        ctl.brk.append(bs)
                        L.brk_sites.append((bs.pc, s_['l']))
                    back.pc = AND(back.pc, NOT(done))
                    if back.pc is FALSE:
                        back = None
            if do and back is not None:
                self.st = back
                cd = cond()
                L.cond = cd
                back = self.st
                exit_head = back.copy()
                exit_head.pc = AND(back.pc, NOT(cd))
                back.pc = AND(back.pc, cd)
                if back.pc is FALSE:
                    back = None
            fr.lp.pop()
            self.loopctx.pop()
            # what changed across the iteration
            new = {}
            if back is not None:
                for r, d in back.env.items():
                    if head.env.get(r) is d:
                        continue
                    if r.op == 'var' and (key in self.birth.get(r, ()) or r not in head.env and r not in self.birth):
                        continue
                    for l, (v, stp) in d.items():
                        if stp <= hstamp:
                            continue
                        bv = v
                        hv_ = head.read(l)
                        if hv_.op == 'agg' and v.op != 'agg':
                            b = hv_
                            while b.op == 'agg':
                                b = b.a[0]
                            if b is v:
                                continue
                        if l in resolved:
                            # verify E(iv+step) == B
                            if l in ptrs:
                                bv = pos(bv, ptrs[l][0])
                                if bv is None:
                                    new[l] = 1
                                    continue
                            if subst(resolved[l], L_iv_next) is bv or restrict(subst(resolved[l], L_iv_next), back.pc) is bv or restrict(bv, back.pc) is restrict(subst(resolved[l], L_iv_next), back.pc):
                                continue
                            new[l] = 1
                            resolved.pop(l)
                            continue
                        if restrict(bv, back.pc) is restrict(hv_, back.pc):
                            continue
                        if bv.op == 'ite' and hv_.op == 'c' and under_pc(bv, back.pc) is hv_:
                            continue
                        if l in guarded:
                            g0, v0 = guarded[l]
                            if under_pc(bv, AND(back.pc, subst(g0, L_iv_next))) is v0:
                                continue
                            guarded.pop(l)
                            new[l] = 1
                            continue
                        if l in ptrs and pos(bv, ptrs[l][0]) is None:
                            notptr.add(l)
                            new[l] = 1
                            continue
                        p = self.gen(l, key)
                        if not any(rel(q, p) in ('eq', 'anc') for q in pats):
                            new[p] = 1
                for w in back.wild[hwild:]:
                    if w[0].op == 'var' and key in self.birth.get(path(w[0])[0], ()):
                        continue
                    if path(w[0])[0].op == 'var' and key in self.birth.get(path(w[0])[0], ()):
                        continue
                    if not contains(w[0], lambda x: x is STAR):
                        # a single location: what counts is its value at the back edge
                        bv, hv_ = back.read(w[0]), head.read(w[0])
                        if bv.op != 'agg' and hv_.op in ('c', 'addr') and (bv is hv_ or under_pc(bv, back.pc) is hv_):
                            continue
                    p = self.gen(w[0], key)
                    if not any(rel(q, p) in ('eq', 'anc') for q in pats):
                        new[p] = 1
            if new:
                pats.update(new)
                if len(pats) > 200:
                    raise ToolError('loop at %s:%s does not stabilise' % (fr.fn['f'], s_['l']))
                for l in list(fr.rets[nret:]):
                    pass
                del fr.rets[nret:]
                del self.thrown[nthr:]
                resolved = {}
                guarded = {}
                tried_resolve = False
                continue
            # induction variables
            L.ivs = {}
            if back is not None:
                for p in pats:
                    if contains(p, lambda x: x is STAR):
                        continue
                    m = mu(p)
                    b = get(back, p)
                    if b is None or b.op == 'ite':
                        continue
                    d = idiff(b, m)
                    if d is not None and d != 0 and (m.ty is None or m.ty.get('k') != 'float'):
                        L.ivs[m] = (get(s0, p), d, p)
            L.pats = list(pats)
            self.pick_main(L, head)
            if not tried_resolve and L.main is not None and back is not None:
                tried_resolve = True
                m, init, step = L.main
                L_iv_prev = {m.id: isub(m, c(step))}
                L_iv_next = {m.id: iadd(m, c(step))}
                cand = {}
                for p in pats:
                    if contains(p, lambda x: x is STAR):
                        continue
                    mp = mu(p)
                    if mp is m:
                        continue
                    b = get(back, p)
                    if b is None or b.op in ('agg',) or mp.id in b.mus:
                        continue
                    if mp in L.ivs:
                        # secondary induction variable: linear in the main one
                        i0, d, _ = L.ivs[mp]
                        E = iadd(i0, iscale(isub(m, init), d / step))
                        cand[p] = E
                        continue
                    if any(byid(i) is not m and byid(i).a[0] == key for i in b.mus):
                        continue
                    E = subst(b, L_iv_prev)
                    if E is b and False:
                        continue
                    i0 = get(s0, p)
                    if subst(E, {m.id: init}) is i0 or restrict(subst(E, {m.id: init}), s0.pc) is i0:
                        cand[p] = E
                for p in pats:
                    mp = mu(p)
                    if mp in L.ivs and mp is not m and p not in cand and not contains(p, lambda x: x is STAR):
                        i0, d, _ = L.ivs[mp]
                        cand[p] = iadd(i0, iscale(isub(m, init), d / step))
                # values that change only in an iteration that is followed by no other
                gcand = {}
                if L.bound is not None and L.cond not in (None, TRUE, FALSE) and L.cond_extra is None:
                    nxt = subst(L.cond, L_iv_next)
                    for p in pats:
                        if p in cand or contains(p, lambda x: x is STAR):
                            continue
                        mp = mu(p)
                        if mp is m or mp in L.ivs or p in ptrs:
                            continue
                        b = back.read(p)
                        if b.op == 'ite' and under_pc(b, AND(back.pc, nxt)) is mp:
                            gcand[p] = (L.cond, s0.read(p))
                if cand or gcand:
                    guarded = gcand
                    resolved = cand
                    del fr.rets[nret:]
                    del self.thrown[nthr:]
                    continue
            break
        else:
            raise ToolError('loop at %s:%s does not stabilise' % (fr.fn['f'], s_['l']))
        if not do and rng is None and L.main is None and getattr(L, 'main_only', None) is None and L.cond not in (None, TRUE, FALSE) and inc is None:
            # flag-controlled loop: analyse as  if (cond) do body while (cond)  so that facts implied by the
            # continuing condition are available at the loop head
            del self.events[mark:]
            del fr.rets[nret:]
            del self.thrown[nthr:]
            self.st = s0
            cd = cond()
            if self.dead():
                return
            skip = self.st.copy()
            skip.pc = AND(self.st.pc, NOT(cd))
            self.st.pc = AND(self.st.pc, cd)
            if not self.dead():
                self.loop(s_, cond, body, inc, do=True, rng=rng)
                L = self.loops[key]
                L.rotated = True
            self.st = merge(skip if skip.pc is not FALSE else None, self.st if not self.dead() else None)
            return
        self.loop_hints[key] = {p: 1 for p in pats if p not in resolved} if False else {}
        L.resolved = resolved
        L.back, L.head = back, head
        L.mark, L.end = mark, len(self.events)
        L.exits_early = bool(ctl.brk) or len(fr.rets) > nret or len(self.thrown) > nthr
        L.nbrk = len(ctl.brk)
        # ---- exit state
        ex = exit_head
        if ex is not None and ex.pc is FALSE:
            ex = None
        if ex is not None and not do:
            if L.main is not None and L.bound is not None and back is not None:
                m, init, step = L.main
                bnd = L.bound
                executed = ilt(init, bnd) if step > 0 else ilt(bnd, init)
                if abs(step) == 1:
                    final = bnd
                    last = isub(bnd, c(step))
                    mp = L.ivs[m][2]
                    simple = not ctl.brk and len(fr.rets) == nret and len(self.thrown) == nthr
                    if not bnd.mus or not any(byid(i).a[0] == key for i in bnd.mus):
                        if simple:
                            ex.pc = s0.pc
                        ex.write(mp, put(mp, ite(executed, final, init)))
                        sub = {m.id: last}
                        for p in pats:
                            if p is mp or contains(p, lambda x: x is STAR):
                                continue
                            if p in resolved:
                                ex.write(p, put(p, ite(executed, subst(resolved[p], {m.id: final}), get(s0, p))))
                                continue
                            b = back.read(p)
                            if b.op == 'agg':
                                continue
                            if p in guarded:
                                b = restrict(b, back.pc)
                            b2 = subst(restrict(b, back.pc) if b.op == 'ite' else b, sub)
                            if b2.op == 'ite':
                                b2 = restrict(b2, s0.pc)
                            if not any(byid(i).op == 'mu' and byid(i).a[0] == key for i in b2.mus):
                                ex.write(p, ite(executed, b2, s0.read(p)))
            elif not ctl.brk and len(fr.rets) == nret and len(self.thrown) == nthr and L.main is not None:
                ex.pc = s0.pc
        L.exit = ex
        outs = ([ex] if ex is not None else []) + [b for b in ctl.brk if b is not None and b.pc is not FALSE]
        self.st = merge_all(outs)
        if self.st is not None:
            self.st = self.st.copy()

    def pick_main(self, L, head):
        """main induction variable and bound from the loop condition"""
        L.main = L.bound = L.main_only = None
        L.lo = L.hi = None
        cd = L.cond
        if cd is None or cd in (TRUE, FALSE) or L.do:
            if L.do and cd not in (None, TRUE, FALSE):
                pass
            return
        for at in sorted(atoms(cd), key=lambda x: x.id):
            if at.op not in ('ilt0', 'ieq0', 'flt', 'fle'):
                continue
            for m, (init, step, p) in L.ivs.items():
                if at.op in ('ilt0', 'ieq0'):
                    d, k = lin(at.a[0])
                    q = d.get(m)
                    if q is None or abs(q) != 1:
                        continue
                    rest = dict(d)
                    del rest[m]
                    R = unlin(rest, k)          # p = q*m + R
                    pos = implies(cd, mk(at, TRUE, FALSE))
                    neg = implies(cd, mk(at, FALSE, TRUE))
                    if at.op == 'ieq0':
                        if not neg:
                            continue
                        bound = iscale(R, Fraction(-1)) if q == 1 else R     # m != bound
                    elif pos:
                        # q*m+R<0
                        if q == 1 and step > 0:
                            bound = iscale(R, Fraction(-1))                  # m < -R
                        elif q == -1 and step < 0:
                            bound = R                                        # m > R
                        else:
                            continue
                    elif neg:
                        # q*m+R>=0
                        if q == 1 and step < 0:
                            bound = isub(iscale(R, Fraction(-1)), ONE)       # m >= -R  => m > -R-1
                        elif q == -1 and step > 0:
                            bound = iadd(R, ONE)                             # m <= R
                        else:
                            continue
                    else:
                        continue
                    L.main, L.bound = (m, init, step), bound
                    L.cond_extra = cd if cd not in (mk(at, TRUE, FALSE), mk(at, FALSE, TRUE)) else None
                    if step == 1:
                        L.lo, L.hi = init, bound
                    elif step == -1:
                        L.lo, L.hi = iadd(bound, ONE), iadd(init, ONE)
                    if L.cond_extra is None:
                        return
        # a bound that depends on other conditions: m < (c ? a : b)
        if L.main is None or getattr(L, 'cond_extra', None) is not None:
            for m, (init, step, p) in L.ivs.items():
                if abs(step) != 1:
                    continue
                b = self.tree_bound(cd, m, step)
                if b is not None:
                    L.main, L.bound, L.cond_extra = (m, init, step), b, None
                    L.lo, L.hi = (init, b) if step == 1 else (iadd(b, ONE), iadd(init, ONE))
                    return
        if getattr(L, 'cond_extra', None) is not None:
            # extra conditions: the bound is not the only exit
            L.main_only = L.main
            L.bound_only = L.bound
            L.bound = None

    def tree_bound(self, cd, m, step):
        """bound of m when the condition is, under every assignment of its other atoms, a comparison with m"""
        if cd.op != 'ite':
            return None
        at, x, y = cd.a
        if not contains(at, lambda t: t is m):
            a, b = self.tree_bound(x, m, step), self.tree_bound(y, m, step)
            if a is None or b is None:
                return None
            return ite(mk(at, TRUE, FALSE), a, b)
        if at.op != 'ilt0' or {x, y} != {TRUE, FALSE}:
            return None
        d, k = lin(at.a[0])
        q = d.get(m)
        if q is None or abs(q) != 1:
            return None
        rest = dict(d)
        del rest[m]
        if any(contains(t, lambda u: u is m) for t in rest):
            return None
        r = unlin(rest, k)
        pos = x is TRUE
        if pos and q == 1 and step > 0:
            return iscale(r, Fraction(-1))
        if pos and q == -1 and step < 0:
            return r
        if not pos and q == 1 and step < 0:
            return isub(iscale(r, Fraction(-1)), ONE)
        if not pos and q == -1 and step > 0:
            return iadd(r, ONE)
        return None

    def gen(self, l, key):
        """generalise a location written in loop key: indices that vary in the loop become *"""
        inner = [k for k, x in self.loops.items() if key in x.outer]

        def varies(t):
            for x in walk(t):
                if x.op == 'mu' and (x.a[0] == key or x.a[0] in inner):
                    return True
                if x.op in ('ret', 'hv', 'new') :
                    pass
            return False

        def go(x):
            if x.op in ('fld',):
                return fld(go(x.a[0]), x.a[1])
            if x.op == 'idx':
                b = go(x.a[0])
                return idx(b, *[STAR if i is STAR or varies(i) else i for i in x.a[1:]])
            if x.op == 'blk':
                b = go(x.a[0])
                if any(varies(i) for i in x.a[1:] if isinstance(i, T)):
                    return b
                return raw('blk', b, *x.a[1:])
            if x.op == 'deref':
                p = x.a[0]
                if p.op == 'init':
                    return deref(raw('init', go(p.a[0])))
                return x
            return x
        return go(l)

    # ------------------------------------------------------------ expressions
    def ev(self, e, discard=False):
        if e is None:
            return UNDEF
        if self.dead():
            return UNDEF
        if 'cv' in e and e['k'] not in ('asg',) and not (e['k'] in ('mcl', 'cal', 'opc') and self.impure(e)):
            v = e['cv']
            if isinstance(v, str):
                return raw('c', v)
            r = c(v)
            return r
        f = getattr(self, 'e_' + e['k'], None)
        if f is None:
            self.note('expr ' + e['k'], e)
            return raw('unk', self.evid('unk', e))
        r = f(e)
        if r is None:
            r = UNDEF
        if isinstance(r, T) and r.ty is None:
            r.ty = self.ty(e)
        return r

    def impure(self, e):
        return False

    def e_int(self, e):
        return c(e['v'])

    def e_flt(self, e):
        return c(float(e['v']))

    def e_str(self, e):
        return s(e['v'])

    def e_null(self, e):
        return NULL

    def e_this(self, e):
        return addr(self.frames[-1].this)

    def e_zero(self, e):
        t = self.ty(e)
        if t['k'] in ('int', 'float', 'bool', 'enum'):
            return ZERO
        if t['k'] == 'ptr':
            return NULL
        return app('zeroinit', s(t['s']))

    def e_sizeof(self, e):
        return app('sizeof', s(str(e.get('l'))))

    e_trait = e_sizeof

    def e_unk(self, e):
        sc = e.get('sc', '')
        if sc == 'CXXPseudoDestructorExpr':
            return UNDEF
        if sc in ('CXXTypeidExpr', 'PredefinedExpr', 'SourceLocExpr'):
            return s(sc)
        self.note('expr ' + sc, e)
        for a in e.get('as') or []:
            if a:
                self.ev(a)
        return raw('unk', self.evid('unk', e))

    def e_ref(self, e):
        dk = e['dk']
        if dk == 'enum':
            return c(e['cv'])
        if dk == 'fn':
            return raw('fnref', e['fn']['key'])
        if 'cv' in e:
            return c(e['cv'])
        l = self.lv(e)
        if l in self.__dict__.get('viewlocs', {}):
            l = self.viewlocs[l]
        return self.val(l, e)

    def val(self, l, e):
        if l.op == 'ite':
            v = map1(lambda x: self.st.read(x), l)
        else:
            v = self.st.read(l)
        if v.op == 'ite':
            v = restrict(v, self.st.pc)
        if v.ty is None:
            v.ty = self.ty(e)
        return v

    def e_mem(self, e):
        l = self.lv(e)
        return self.val(l, e)

    def e_sub(self, e):
        return self.val(self.lv(e), e)

    def e_lam(self, e):
        fr = self.frames[-1]
        caps = []
        for cpt in e['cs']:
            if cpt.get('this'):
                caps.append(('this', addr(fr.this)))
            elif cpt.get('id') is not None:
                if cpt.get('byref'):
                    l = fr.refs.get(cpt['id'])
                    if l is None:
                        l = self.local(fr, cpt['id'], cpt['n'])
                    caps.append((cpt['id'], 'ref', addr(l)))
                else:
                    caps.append((cpt['id'], 'val', self.ev(cpt['i'])))
        v = raw('lam', e['fn']['key'], tuple(caps))
        self.event('lambda', e, name='lambda', val=v, extra=e)
        return v

    def e_cast(self, e):
        ck = e['ck']
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return ptrbool(self.ev(e['a']))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            v = self.ev(e['a'])
            return map1(lambda x: NOT(eq(x, ZERO, ck[0] == 'I')), v)
        if ck == 'NullToPointer':
            return NULL
        if ck == 'ToVoid':
            self.ev(e['a'], discard=True)
            return UNDEF
        v = self.ev(e['a'])
        if ck == 'FloatingToIntegral':
            return map1(lambda x: x if cv(x) is not None and cv(x).denominator == 1 else app('trunc', x), v)
        if ck in ('IntegralCast',):
            return v
        if ck in ('IntegralToFloating',):
            if v.op == 'ite':
                return v
            return v
        if ck in ('FloatingCast',):
            t, s_ = self.ty(e), self.ty(e['a'])
            if t.get('bits', 64) < s_.get('bits', 64) and cv(v) is None:
                return v
            return v
        return v

    def e_cond(self, e):
        return self.branch(e['i'], lambda: self.ev(e['a']), lambda: self.ev(e['b']))

    def branch(self, ce, fa, fb, cdv=None):
        cd = self.cond(ce) if cdv is None else cdv
        if self.dead():
            return UNDEF
        base = self.st
        if cd is TRUE:
            return fa()
        if cd is FALSE:
            return fb()
        s2 = base.copy()
        base.pc = AND(base.pc, cd)
        s2.pc = AND(s2.pc, NOT(cd))
        if base.pc is FALSE:
            self.st = s2
            return fb()
        if s2.pc is FALSE:
            self.st = base
            return fa()
        self.st = base
        va = fa()
        r1 = self.st if not self.dead() else None
        self.st = s2
        vb = fb()
        r2 = self.st if not self.dead() else None
        self.st = merge(r1, r2)
        if r1 is None:
            return vb
        if r2 is None:
            return va
        if va is UNDEF and vb is UNDEF:
            return UNDEF
        return ite(cd, va, vb)

    def e_bin(self, e):
        op = e['op']
        if op == '&&':
            a = self.cond(e['a'])
            return self.branch(None, lambda: self.cond(e['b']), lambda: FALSE, a)
        if op == '||':
            a = self.cond(e['a'])
            return self.branch(None, lambda: TRUE, lambda: self.cond(e['b']), a)
        if op == ',':
            self.ev(e['a'], discard=True)
            return self.ev(e['b'])
        a, b = self.ev(e['a']), self.ev(e['b'])
        return self.binop(op, a, b, self.ty(e['a']), self.ty(e['b']), self.ty(e), e)

    def binop(self, op, a, b, ta, tb, tr, at=None):
        fl = ta['k'] == 'float' or tb['k'] == 'float'
        ptr = ta['k'] in ('ptr', 'arr') or tb['k'] in ('ptr', 'arr')
        if op in ('==', '!='):
            r = eq(a, b, not fl and not ptr)
            return r if op == '==' else NOT(r)
        if op in ('<', '>', '<=', '>='):
            if ptr:
                return ptrcmp(op, a, b)
            if fl:
                return {'<': lambda: flt(a, b), '>': lambda: flt(b, a), '<=': lambda: fle(a, b), '>=': lambda: fle(b, a)}[op]()
            return {'<': lambda: ilt(a, b), '>': lambda: ilt(b, a), '<=': lambda: NOT(ilt(b, a)), '>=': lambda: NOT(ilt(a, b))}[op]()
        if ptr and op in ('+', '-'):
            def padd(p):
                if p.op == 'addr' and p.a[0].op == 'idx' and len(p.a[0].a) == 2:
                    return addr(idx(p.a[0].a[0], iadd(p.a[0].a[1], b if op == '+' else iscale(b, Fraction(-1)))))
                return raw('app', 'padd', p, b if op == '+' else iscale(b, Fraction(-1)))
            if tr['k'] == 'ptr':
                return map1(padd, a)
            i, j = elempos(a), elempos(b)
            if op == '-' and i is not None and j is not None and i[0] is j[0]:
                return isub(i[1], j[1])
            return app('pdiff', a, b)
        if tr['k'] == 'float' or fl:
            return arith(op, a, b)
        if op == '+':
            return iadd(a, b)
        if op == '-':
            return isub(a, b)
        if op == '*':
            return imul(a, b)
        if op in ('/', '%'):
            if at is not None and cv(b) is None:
                self.event('div', at, name=op, val=b)

            def f(x, y):
                u, v = cv(x), cv(y)
                if u is not None and v not in (None, 0):
                    q = int(u / v) if u * v >= 0 else -int(-u / v)
                    return c(q) if op == '/' else c(u - q * v)
                if op == '/' and v == 1:
                    return x
                return app('idiv' if op == '/' else 'imod', x, y)
            return map2(f, a, b)
        if op in ('&', '|', '^') and tr['k'] in ('bool', 'int') and ta['k'] == 'bool' and tb['k'] == 'bool':
            return {'&': AND, '|': OR}[op](a, b) if op != '^' else ite(a, NOT(b), b)
        return app('op' + op, a, b)

    def e_un(self, e):
        op = e['op']
        if op in ('++', '--'):
            l = self.lv(e['a'])
            t = self.ty(e['a'])
            old = self.rd(l)
            if t['k'] == 'float':
                nv = arith('+' if op == '++' else '-', old, ONE)
            elif t['k'] == 'ptr':
                nv = self.binop('+' if op == '++' else '-', old, ONE, t, {'k': 'int'}, t)
            else:
                nv = iadd(old, c(1 if op == '++' else -1))
            if old.ty is None:
                old.ty = t
            self.wr(l, nv, e)
            return old if e.get('pf') else nv
        if op == '*':
            return self.val(self.lv(e), e)
        if op == '&':
            if e['a']['k'] == 'ref' and e['a'].get('dk') == 'fn':
                return raw('fnref', e['a']['fn']['key'])
            return map1(addr, self.lv(e['a']))
        v = self.ev(e['a'])
        if op == '!':
            return NOT(v)
        if op == '-':
            t = self.ty(e['a'])
            if t['k'] == 'float':
                return map1(lambda x: c(-cv(x)) if cv(x) is not None else raw('c', 'inf' if x.a[0] == '-inf' else '-inf') if x.op == 'c' and x.a[0] in ('inf', '-inf') else raw('neg', x), v)
            return iscale(v, Fraction(-1))
        if op == '+':
            return v
        return app('un' + op, v)

    def e_asg(self, e):
        l = self.lv(e['a']) if False else None
        op = e['op']
        ta = self.ty(e['a'])
        if op == '=':
            v = self.ev(e['b'])
            l = self.lv(e['a'])
            if self.dead():
                return UNDEF
            if ta['k'] in ('int',) and self.ty(e['b'])['k'] == 'float':
                v = map1(lambda x: app('trunc', x), v)
            self.wr(l, v, e)
            return v
        b = self.ev(e['b'])
        l = self.lv(e['a'])
        if self.dead():
            return UNDEF
        a = self.val(l, e['a'])
        v = self.binop(op[:-1], a, b, ta, self.ty(e['b']), ta, e)
        if ta['k'] == 'int' and self.ty(e['b'])['k'] == 'float':
            v = app('trunc', v)
        self.wr(l, v, e)
        return v

    def e_ini(self, e):
        t = self.ty(e)
        if t['k'] == 'rec':
            r = self.P.recs.get(t['rec'])
            if r:
                vals = [self.ev(x) if x else UNDEF for x in e['as']]
                names = [f['n'] for f in r['fs']]
                return raw('rec', *[(n, v) for n, v in zip(names, vals)])
        vals = [self.ev(x) if x else UNDEF for x in e['as']]
        if t['k'] in ('int', 'float', 'bool', 'ptr', 'enum') and len(vals) == 1:
            return vals[0]
        if t.get('rq') == 'std::array' and len(vals) == 1 and vals[0].op == 'tup':
            return vals[0]
        return raw('tup', *vals)

    def e_new(self, e):
        nid = self.evid('new', e)
        p = raw('new', nid)
        i = e.get('i')
        if i and i['k'] == 'ctor':
            self.construct(i, deref(p))
        elif i:
            self.st.write(deref(p), self.ev(i))
        self.event('new', e, name='new', val=p)
        return p

    def e_del(self, e):
        p = self.ev(e['a'])
        self.event('delete', e, name='delete', recv=deref(p) if p.op != 'ite' else None, val=p)
        return UNDEF

    def e_throw(self, e):
        if e.get('a'):
            self.ev(e['a'])
        self.event('throw', e, name='throw')
        self.thrown.append(self.st)
        self.st = None
        return UNDEF

    # ------------------------------------------------------------ lvalues
    def tmp(self, e, tag=''):
        l = var('%s.tmp%s@%s:%s' % (self.frames[-1].act, tag, e.get('l'), e.get('c')))
        self.birth[l] = tuple(self.loopctx)
        return l

    def lv(self, e):
        """location denoted by e (materialising temporaries)"""
        k = e['k']
        if k == 'ref':
            fr = self.frames[-1]
            if e['dk'] in ('parm', 'local'):
                l = fr.refs.get(e['id'])
                if l is None:
                    l = self.local(fr, e['id'], e['n'])
                return l
            if e['dk'] == 'glob':
                l = fr.refs.get(e['id'])
                return l if l is not None else raw('glob', e.get('q', e['n']))
            l = fr.refs.get(e.get('id'))
            return l if l is not None else raw('glob', e.get('q', e['n']))
        if k == 'mem':
            b = e['b']
            if e.get('ar'):
                p = self.ev(b)
                bl = _deref_t(p)
            else:
                bl = self.lv(b)
            l = map1(lambda x: fld(x, e['n']), bl)
            if self.watch is not None and self.watch(l, e):
                self.event('access', e, loc=l, extra=e)
            return self.fref(l, e)
        if k == 'sub':
            bt = self.ty(e['a'])
            i = self.ev(e['b'])
            if bt['k'] == 'arr':
                b = self.lv(e['a'])
                return map1(lambda x: idx(x, i), b)
            p = self.ev(e['a'])
            return self.pidx(p, i)
        if k == 'un' and e['op'] == '*':
            return _deref_t(self.ev(e['a']))
        if k == 'un' and e['op'] in ('++', '--') and not e.get('pf'):
            self.ev(e)
            return self.lv(e['a'])
        if k == 'asg':
            self.ev(e)
            return self.lv(e['a'])
        if k == 'cond':
            cd = self.cond(e['i'])
            if self.dead():
                return self.tmp(e)
            if cd is TRUE:
                return self.lv(e['a'])
            if cd is FALSE:
                return self.lv(e['b'])
            return ite(cd, self.lv(e['a']), self.lv(e['b']))
        if k == 'cast':
            return self.lv(e['a'])
        if k == 'bin' and e['op'] == ',':
            self.ev(e['a'], discard=True)
            return self.lv(e['b'])
        if k == 'bin' and e['op'] in ('->*', '.*'):
            b = _deref_t(self.ev(e['a'])) if e['op'] == '->*' else self.lv(e['a'])
            def member(p):
                if p.op == 'addr' and p.a[0].op == 'glob':
                    return map1(lambda x: fld(x, p.a[0].a[0].rsplit('::', 1)[-1]), b)
                return map1(lambda x: idx(fld(x, '#memp'), p), b)
            return map1(member, self.ev(e['b']))
        if k in ('mcl', 'opc', 'cal'):
            r = self.call(e, want_loc=True)
            if isinstance(r, tuple):
                return r[1]
            l = self.tmp(e)
            if r is not None and not self.dead():
                self.st.write(l, r)
            return l
        if k == 'ctor':
            l = self.tmp(e)
            src = self.viewed(e) if e['fn']['cq'] in ('Eigen::Ref', 'Eigen::Block') else None
            if src is not None:
                return src
            self.construct(e, l)
            return l
        v = self.ev(e)
        l = self.tmp(e)
        if not self.dead():
            self.st.write(l, v)
        return l

    def fref(self, l, e):
        # reference-typed fields: follow the pointer stored in the field
        own = e.get('o')
        r = self.P.recs.get(own)
        if r:
            for f in r['fs']:
                if f['n'] == e['n'] and r['T'][f['t']]['ref']:
                    return _deref_t(self.rd(l))
        return l

    def pidx(self, p, i):
        def f(x):
            if x.op == 'addr' and x.a[0].op == 'idx' and len(x.a[0].a) == 2:
                return idx(x.a[0].a[0], iadd(x.a[0].a[1], i))
            if x.op == 'addr':
                return idx(x.a[0], i)
            return idx(deref(x), i)
        return map1(f, p)

    # ------------------------------------------------------------ calls
    def e_mcl(self, e):
        return self.callv(e)

    def e_opc(self, e):
        return self.callv(e)

    def e_cal(self, e):
        return self.callv(e)

    def callv(self, e):
        r = self.call(e)
        if isinstance(r, tuple):
            if self.dead():
                return UNDEF
            return self.val(r[1], e)
        return r

    def e_ctor(self, e):
        t = self.ty(e)
        q = e['fn']['cq']
        if isq(q, SMART) or q.startswith('std::function'):
            l = self.tmp(e, 'c')
            self.construct(e, l)
            return self.st.read(l) if not self.dead() else UNDEF
        l = self.tmp(e, 'c')
        self.construct(e, l)
        if self.dead():
            return UNDEF
        v = self.st.read(l)
        return v

    def recv(self, e):
        ob = e['ob']
        if e.get('ar'):
            return _deref_t(self.ev(ob))
        return self.lv(ob)

    def call(self, e, want_loc=False):
        """value of the call, or ('loc', location) when it denotes an lvalue"""
        import models
        fn = e.get('fn')
        k = e['k']
        if fn is None:
            # call through a pointer / unknown callee
            fv = self.ev(e['fe']) if e.get('fe') else UNDEF
            if e.get('ob'):
                self.ev(e['ob'])
            return self.call_value(fv, e, e['as'])
        if fn['n'] == 'AssertMsg' and fn['q'].endswith('::AssertMsg'):
            cd = self.cond(e['as'][0])
            if self.dead():
                return UNDEF
            msg = None
            self.event('assert', e, name='assert', val=cd, extra=e)
            st = self.st
            if cd is not TRUE:
                st.pc = AND(st.pc, cd)
                if st.pc is FALSE:
                    self.st = None
            return UNDEF
        r = models.model(self, e, fn)
        if r is not models.NONE:
            return r
        # receiver and arguments
        args = list(e['as'])
        rl = None
        if k == 'mcl':
            rl = self.recv(e)
        elif k == 'opc' and fn.get('m') and not fn.get('st'):
            rl = self.lv(args[0])
            args = args[1:]
        if self.dead():
            return UNDEF
        key = fn['key']
        if fn.get('cls', '').startswith('lambda@') and fn.get('op') == '()':
            fv = self.rd(rl)
            return self.call_value(fv, e, args, fn)
        if not self.timers and fn.get('cls') in ('altro::Timer', 'altro::Stopwatch') and fn['n'] == 'Start':
            for a in args:
                self.ev(a)
            return raw('timer')
        if self.quiet and (facts.strip_targs(fn['q']) in self.quiet):
            # only the call itself matters: argument values are recorded, effects are not followed
            av = self.arg_eval(fn, args)
            if self.dead():
                return UNDEF
            ev = self.event('call', e, name=fn['n'], fn=fn, recv=rl, args=[(l, v) for l, v, _ in av], extra='quiet')
            ev.mut = [bool(m) for _, _, m in av]
            rt = self.frames[-1].T[fn['rt']] if fn.get('rt', -1) >= 0 else {'k': 'void', 'ref': 0}
            if rt['k'] == 'void':
                return UNDEF
            return ('loc', deref(raw('ret', ev.id))) if rt['ref'] else raw('ret', ev.id)
        target = self.resolve(fn, e)
        if target is not None and not self.is_opaque(target):
            return self.inline_call(target, rl, args, e)
        return self.opaque_call(fn, rl, args, e)

    def is_opaque(self, f):
        return f['q'] in self.opaque or f['n'] in self.opaque or f['key'] in self.opaque

    def resolve(self, fn, e):
        key = fn['key']
        if key in self.dispatch:
            key = self.dispatch[key]
        f = self.P.fns.get(key)
        if e.get('vd') and key == fn['key']:
            ov = [o for o in self.P.overriders.get(key, ())]
            if ov:
                return None
        if f is None or not f.get('b'):
            return None
        if sum(1 for x in self.frames if x.fn['key'] == key) >= 1 and len(self.frames) > 0 and sum(1 for x in self.frames if x.fn['key'] == key) > 1:
            return None
        if len(self.frames) > MAXDEPTH:
            return None
        return f

    def bind_args(self, target, args, fr2, T=None):
        """evaluate arguments in the current frame and bind target's parameters in fr2; returns [(loc,val)]"""
        out = []
        binds = []
        for i, p in enumerate(target['ps']):
            t = target['T'][p['t']]
            if i >= len(args):
                break
            a = args[i]
            if self.dead():
                return out
            if t['ref'] or t.get('rq') in ('Eigen::Ref',) :
                if t.get('rq') == 'Eigen::Ref':
                    src = self.viewed(a)
                    if src is None:
                        src = self.tmp(a, 'a%d' % i)
                        self.st.write(src, self.ev(a))
                else:
                    src = self.bind_ref(a, t, {'id': 'a%d' % i})
                binds.append((p, src, None, t))
                out.append((src, None))
            else:
                if a['k'] == 'ctor' and t['k'] == 'rec':
                    l = var('%s.%s~%s' % (fr2.act, p['n'], p['id']))
                    self.birth[l] = tuple(self.loopctx)
                    self.construct(a, l)
                    v = self.st.read(l) if not self.dead() else UNDEF
                    binds.append((p, l, None, t))
                    out.append((None, v))
                else:
                    v = self.ev(a)
                    binds.append((p, None, v, t))
                    out.append((None, v))
        for p, l, v, t in binds:
            if self.dead():
                return out
            if l is None:
                l = var('%s.%s~%s' % (fr2.act, p['n'], p['id']))
                self.birth[l] = tuple(self.loopctx)
                self.st.write(l, v)
            fr2.refs[p['id']] = l
        return out

    def new_act(self, target, e):
        k = (self.stack_id(), target['key'], e.get('l', 0), e.get('c', 0), e.get('k'))
        a = self.act.get(k)
        if a is None:
            a = self.act[k] = 'f%d' % (len(self.act) + 1)
        return a

    def inline_call(self, target, rl, args, e, lamfr=None):
        if rl is not None and rl.op == 'ite':
            rl = restrict(rl, self.st.pc)
        if rl is not None and rl.op == 'ite':
            # several possible receivers: analyse each under its condition
            cs = cases(rl)
            if len(cs) <= 3:
                outs, vals = [], []
                base = self.st
                for p, l in cs:
                    s1 = base.copy()
                    s1.pc = AND(base.pc, p)
                    if s1.pc is FALSE:
                        continue
                    self.st = s1
                    v = self.inline_call(target, l, args, e)
                    if not self.dead():
                        outs.append(self.st)
                        vals.append((p, v))
                self.st = merge_all(outs)
                r = None
                isl = vals and all(isinstance(v, tuple) for _, v in vals)
                for p, v in vals:
                    v = v[1] if isinstance(v, tuple) else v
                    if v is None:
                        continue
                    r = v if r is None else ite(p, v, r)
                return ('loc', r) if isl else r
        fr2 = Frame(target, rl, self.new_act(target, e))
        if lamfr:
            fr2.refs.update(lamfr[0])
            if lamfr[1] is not None:
                fr2.this = lamfr[1]
        av = self.bind_args(target, args, fr2)
        if self.dead():
            return UNDEF
        return self.enter(target, fr2, e, rl, av)

    def inline(self, target, rl, av, e):
        fr2 = Frame(target, rl, self.new_act(target, e))
        return self.enter(target, fr2, e, rl, av)

    def enter(self, target, fr2, e, rl, av):
        args = []
        for i, p in enumerate(target['ps']):
            l = fr2.refs.get(p['id'])
            args.append((l, None))
        evt = self.event('call', e, name=target['n'], fn=target, recv=rl, args=[(l, self.st.read(l) if l is not None and l.op != 'ite' else None) for l, _ in args], extra='inlined')
        self.callstack.append((target['key'], e.get('l', 0), e.get('c', 0)))
        v = self.exec_fn(fr2, target)
        self.callstack.pop()
        if self.dead():
            return UNDEF
        rt = target['T'][target['rt']] if target.get('rt', -1) >= 0 else None
        evt.ret = v
        if rt is not None and v is not None and (rt['ref'] or rt.get('rq') in ('Eigen::Block', 'Eigen::VectorBlock', 'Eigen::Ref') and v.op in ('addr', 'ite')):
            return ('loc', _deref_t(v))
        return v

    def call_value(self, fv, e, args, fn=None):
        """call a function value (lambda or opaque)"""
        if fv.op == 'lam':
            f = self.P.fns.get(fv.a[0])
            if f is None and fn is not None:
                f = self.P.fns.get(fn['key'])   # the instance of a generic lambda
            if f and not self.is_opaque(f):
                refs, this = {}, None
                for cp in fv.a[1]:
                    if cp[0] == 'this':
                        this = deref(cp[1])
                    elif cp[1] == 'ref':
                        refs[cp[0]] = _deref_t(cp[2])
                    else:
                        l = var('%s.cap~%s' % (self.new_act(f, e), cp[0]))
                        self.st.write(l, cp[2])
                        refs[cp[0]] = l
                return self.inline_call(f, None, args, e, (refs, this))
        if fv.op == 'fnref':
            f = self.P.fns.get(fv.a[0])
            if f and not self.is_opaque(f):
                return self.inline_call(f, None, args, e)
        vals = []
        for a in args:
            vals.append((None, self.ev(a)))
            if self.dead():
                return UNDEF
        ev = self.event('call', e, name='callvalue', args=vals, val=fv)
        return raw('ret', ev.id, fv)

    def arg_eval(self, fn, args):
        """evaluate arguments for an opaque callee: list of (loc or None, value, mutable?)"""
        T = self.frames[-1].T
        out = []
        for i, a in enumerate(args):
            if self.dead():
                return out
            pt = T[fn['p'][i]] if i < len(fn['p']) else None
            if pt is None:
                out.append((None, self.ev(a), False))
                continue
            if pt['ref'] == 1 and not pt['cst']:
                l = self.bind_ref(a, pt, {'id': 'o%d' % i})
                out.append((l, self.rd(l), True))
            elif pt.get('rq') == 'Eigen::Ref':
                src = self.viewed(a)
                if src is None:
                    out.append((None, self.ev(a), False))
                else:
                    out.append((src, self.rd(src), not ('const ' in pt['s'].split('Eigen::Ref<')[1][:8])))
            elif pt['ref']:
                if a.get('lv') or self.view(a) or self.ret_ref(a):
                    l = self.lv(a)
                    out.append((l, self.rd(l), False))
                else:
                    src = self.viewed(a) if a['k'] == 'ctor' and a['fn']['cq'] == 'Eigen::Ref' else None
                    if src is not None:
                        out.append((src, self.rd(src), False))
                    else:
                        out.append((None, self.ev(a), False))
            elif pt['k'] == 'ptr' and not pt.get('pc'):
                v = self.ev(a)
                l = deref(v) if v.op in ('addr', 'init', 'new', 'mu') else None
                out.append((l, v, v.op in ('addr',)))
            else:
                out.append((None, self.ev(a), False))
        return out

    def opaque_call(self, fn, rl, args, e):
        av = self.arg_eval(fn, args)
        if self.dead():
            return UNDEF
        T = self.frames[-1].T
        rt = T[fn['rt']] if fn.get('rt', -1) >= 0 else {'k': 'void', 'ref': 0, 's': 'void'}
        vd = e.get('vd')
        self.opaque_called[fn['q']] = self.opaque_called.get(fn['q'], 0) + 1
        ev = self.event('call', e, name=fn['n'], fn=fn, recv=rl, args=[(l, v) for l, v, _ in av], extra='virtual' if vd else 'opaque')
        ev.mut = [bool(m) for _, _, m in av]
        if fn['q'] in ('abort', 'exit', '_Exit', 'std::abort', 'std::exit', 'std::terminate', 'std::rethrow_exception', 'std::quick_exit'):
            self.thrown.append(self.st)
            self.st = None
            return UNDEF
        if self.trystack:
            self.trystack[-1].append(self.st.copy())
        inrepo = fn['q'].startswith('altro::')
        const = fn.get('cst') or fn.get('st') or not fn.get('m')
        ins = [v for l, v, mut in av]
        inputs = tuple(v for l, v, mut in av if not (mut and inrepo))
        rterm = addr(rl) if rl is not None else NULL
        pure = const and not any(m for _, _, m in av) and rt['k'] != 'void'
        if inrepo and vd:
            # member functions of the user-supplied function interfaces are functions of receiver and inputs
            pure = pure or fn['n'] in ('Evaluate', 'Jacobian', 'Hessian', 'Gradient', 'OutputDimension', 'StateDimension', 'ControlDimension', 'HasHessian', 'GetLabel')
        # effects on arguments
        for i, (l, v, mut) in enumerate(av):
            if mut and l is not None:
                if inrepo and vd:
                    nv = raw('out', fn['n'], i, rterm, inputs)
                    self.st.write(l, nv)
                else:
                    self.havoc_loc(l, ev.id)
        if rl is not None and not const and not (inrepo and vd):
            self.havoc_loc(rl, ev.id)
        if rt['k'] == 'void':
            return UNDEF
        if rt['ref']:
            return ('loc', deref(raw('ret', ev.id, rterm))) if not pure else ('loc', deref(app('R:' + fn['q'], rterm, *ins)))
        if pure:
            if rl is not None and not (inrepo and vd):
                rv = self.rd(rl)
                return app(fn['q'], rv if rl.op != 'deref' else addr(rl), *ins)
            if inrepo and vd:
                return app('V:' + fn['n'], rterm, *ins)
            return app(fn['q'], *ins)
        return raw('ret', ev.id, rterm)

    def havoc_loc(self, l, evid):
        if l.op == 'ite':
            for _, x in cases(l):
                self.st.havoc(x, ('hv', evid))
        else:
            self.st.havoc(l, ('hv', evid))

    # ------------------------------------------------------------ construction
    def construct(self, e, l):
        import models
        fn = e['fn']
        q = fn['cq']
        r = models.construct(self, e, fn, l)
        if r is not models.NONE:
            return
        key = fn['key']
        args = e['as']
        if (fn.get('cc') or fn.get('mc')) and len(args) >= 1:
            f = self.P.fns.get(key)
            if fn.get('dflt') or f is None:
                src = self.lv(args[0])
                if self.dead():
                    return
                v = self.rd(src)
                self.st.write(l, v)
                if not e.get('el'):
                    self.event('ctor', e, name=q, fn=fn, recv=l, args=[(src, v)])
                return
        f = self.P.fns.get(key)
        if f is not None and not self.is_opaque(f) and sum(1 for x in self.frames if x.fn['key'] == key) < 2:
            # default member initialisers are part of inits
            self.inline_call(f, l, args, e)
            return
        if fn.get('dflt') and not args:
            rec = self.P.recs.get(fn['cls'])
            if rec:
                for fd in rec['fs']:
                    if fd.get('i'):
                        v = self.ev(fd['i'])
                        self.st.write(fld(l, fd['n']), v)
                    else:
                        self.st.write(fld(l, fd['n']), app('dflt', s(rec['T'][fd['t']]['s'])) if rec['T'][fd['t']]['k'] == 'rec' else UNDEF)
                return
        av = self.arg_eval(fn, args)
        if self.dead():
            return
        self.event('ctor', e, name=q, fn=fn, recv=l, args=[(x, v) for x, v, _ in av]).mut = [bool(m) for _, _, m in av]
        self.st.write(l, app('ctor:' + q, *[v for _, v, _ in av]))


class NotLv(Exception):
    pass


# ------------------------------------------------------------------ logic helpers
def elempos(p):
    if p.op == 'addr' and p.a[0].op == 'idx' and len(p.a[0].a) == 2:
        return p.a[0].a
    return None


def ptrcmp(op, a, b):
    def f(x, y):
        if x.op == 'rit' and y.op == 'rit':
            return f(y.a[0], x.a[0])
        i, j = elempos(x), elempos(y)
        if i is None or j is None or i[0] is not j[0]:
            return mk(raw('plt', op, x, y), TRUE, FALSE)
        i, j = i[1], j[1]
        return {'<': lambda: ilt(i, j), '>': lambda: ilt(j, i), '<=': lambda: NOT(ilt(j, i)), '>=': lambda: NOT(ilt(i, j))}[op]()
    return map2(f, a, b)


def axioms(ts):
    """facts relating the atoms that occur in the given diagrams"""
    ats = set()
    for t in ts:
        ats |= atoms(t)
    ats = list(ats)
    ax = TRUE
    byx = {}
    lts = []
    for a in ats:
        if a.op == 'eq':
            for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                if y.op in ('c', 's', 'null'):
                    byx.setdefault(x, []).append(a)
        elif a.op in ('ilt0', 'ieq0'):
            d, k = lin(a.a[0])
            key = tuple(sorted((t.id, q) for t, q in d.items()))
            nkey = tuple(sorted((t.id, -q) for t, q in d.items()))
            lts.append((a, key, nkey, k))
    for x, l in byx.items():
        for i in range(len(l)):
            for j in range(i):
                ax = AND(ax, NOT(AND(mk(l[i], TRUE, FALSE), mk(l[j], TRUE, FALSE))))
    for i in range(len(lts)):
        for j in range(len(lts)):
            if i == j:
                continue
            a, ka, na, x = lts[i]
            b, kb, nb, y = lts[j]
            A, B = mk(a, TRUE, FALSE), mk(b, TRUE, FALSE)
            if ka == kb:        # v+x ? , v+y ?
                if a.op == 'ilt0' and b.op == 'ilt0' and y <= x:
                    ax = AND(ax, OR(NOT(A), B))           # v+x<0 => v+y<0
                if a.op == 'ieq0' and b.op == 'ilt0':
                    ax = AND(ax, OR(NOT(A), B if y < x else NOT(B)))
                if a.op == 'ieq0' and b.op == 'ieq0' and x != y:
                    ax = AND(ax, OR(NOT(A), NOT(B)))
            elif ka == nb:      # v+x , -v+y
                if a.op == 'ilt0' and b.op == 'ilt0' and x + y >= -1:
                    ax = AND(ax, OR(NOT(A), NOT(B)))
                if a.op == 'ilt0' and b.op == 'ilt0' and x + y < 1 and i < j:
                    pass
                if a.op == 'ieq0' and b.op == 'ilt0':
                    ax = AND(ax, OR(NOT(A), B if y + x < 0 else NOT(B)))
    fls = [a for a in ats if a.op in ('flt', 'fle')]
    for a in fls:
        for b in fls:
            if a is b:
                continue
            A, B = mk(a, TRUE, FALSE), mk(b, TRUE, FALSE)
            if a.a == b.a and a.op == 'flt' and b.op == 'fle':
                ax = AND(ax, OR(NOT(A), B))
            if a.a[0] is b.a[1] and a.a[1] is b.a[0] and (a.op == 'flt' or b.op == 'flt'):
                ax = AND(ax, NOT(AND(A, B)))
            # constants
            for s1 in (0, 1):
                if a.a[s1] is b.a[s1]:
                    u, v = cv(a.a[1 - s1]), cv(b.a[1 - s1])
                    if u is not None and v is not None and u != v:
                        if s1 == 0 and u < v:      # x<u => x<v
                            ax = AND(ax, OR(NOT(A), B))
                        if s1 == 1 and u > v:      # u<x => v<x
                            ax = AND(ax, OR(NOT(A), B))
    return ax


def under_pc(v, p):
    """the only value v can take when p holds, or None"""
    out = None
    for q, x in cases(restrict(v, p)):
        if x is out:
            continue
        if sat(AND(p, q)):
            if out is not None:
                return None
            out = x
    return out


def implies(p, q, extra=TRUE):
    p, q = tobool(p), tobool(q)
    if AND(p, NOT(q)) is FALSE:
        return True
    ax = axioms([p, q, extra])
    return AND(AND(p, AND(ax, extra)), NOT(q)) is FALSE


def sat(p):
    return AND(p, axioms([p])) is not FALSE


def equiv(p, q):
    return implies(p, q) and implies(q, p)
