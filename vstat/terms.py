"""Hash-consed value terms with gated (decision-diagram) conditionals.

A term is a value number.  Conditionals are ordered decision diagrams: ``ite(atom, a, b)`` nodes are
kept sorted by atom number and reduced, so two branch structures that select the same values under
the same atoms give the same term, however the branches were written.
"""
from fractions import Fraction
import math
import sys
sys.setrecursionlimit(max(sys.getrecursionlimit(),200000))


class T:
    __slots__ = ('op', 'a', 'id', 'ty', 'mus', 'depth')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_all = []
MU_OPS = ('mu', 'iv')


def raw(op, *a):
    key = (op,) + tuple(x.id if isinstance(x, T) else ('#', x) if not isinstance(x, tuple) else _tk(x) for x in a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.id, t.ty = op, a, len(_all), None
        m = frozenset()
        d = 0
        for x in _flat(a):
            if x.mus:
                m = m | x.mus
            if x.depth > d:
                d = x.depth
        if op in MU_OPS:
            m = m | {t.id}
        t.mus = m
        t.depth = d + 1
        _tab[key] = t
        _all.append(t)
    return t


def _tk(x):
    return tuple(y.id if isinstance(y, T) else _tk(y) if isinstance(y, tuple) else ('#', y) for y in x)


def _flat(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _flat(x)


def byid(i):
    return _all[i]


# ------------------------------------------------------------------ constants
def c(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return raw('c', 'inf' if v == math.inf else '-inf' if v == -math.inf else 'nan')
        v = Fraction(v)
    if isinstance(v, int):
        v = Fraction(v)
    return raw('c', v)


TRUE = c(1)
FALSE = c(0)
ZERO = FALSE
ONE = TRUE
NULL = raw('null')
UNDEF = raw('undef')


def s(v):
    return raw('s', v)


def isc(t):
    return t.op == 'c'


def cv(t):
    """numeric constant of a term, or None"""
    return t.a[0] if t.op == 'c' and not isinstance(t.a[0], str) else None


# ------------------------------------------------------------------ decision diagrams
_ite_memo = {}


def mk(atom, a, b):
    if a is b:
        return a
    return raw('ite', atom, a, b)


def _top(*ts):
    m = None
    for t in ts:
        if t.op == 'ite':
            x = t.a[0]
            if m is None or x.id < m.id:
                m = x
    return m


def _cof(t, atom, val):
    if t.op == 'ite' and t.a[0] is atom:
        return t.a[1] if val else t.a[2]
    return t


def ite(cnd, a, b):
    if cnd is TRUE:
        return a
    if cnd is FALSE:
        return b
    if a is b:
        return a
    cnd = tobool(cnd)
    return _ite(cnd, a, b)


def _ite(cnd, a, b):
    if cnd is TRUE:
        return a
    if cnd is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return cnd
    k = (cnd.id, a.id, b.id)
    r = _ite_memo.get(k)
    if r is None:
        at = _top(cnd, a, b)
        r = mk(at, _ite(_cof(cnd, at, 1), _cof(a, at, 1), _cof(b, at, 1)),
               _ite(_cof(cnd, at, 0), _cof(a, at, 0), _cof(b, at, 0)))
        _ite_memo[k] = r
    return r


_tb_memo = {}


def tobool(t):
    """turn a value used as a condition into a 0/1-leaf diagram"""
    r = _tb_memo.get(t.id)
    if r is not None:
        return r
    if t.op == 'ite':
        r = _ite(t.a[0] if False else mk(t.a[0], TRUE, FALSE), tobool(t.a[1]), tobool(t.a[2]))
    elif t.op == 'c':
        r = FALSE if t.a[0] == 0 else TRUE
    elif t is NULL:
        r = FALSE
    elif t.op in ('addr', 'new', 'lam'):
        r = TRUE
    elif t.op == 's':
        r = TRUE
    else:
        r = mk(t, TRUE, FALSE)
    _tb_memo[t.id] = r
    return r


def NOT(t):
    return ite(t, FALSE, TRUE)


def AND(*ts):
    r = TRUE
    for t in ts:
        r = ite(t, r, FALSE) if r is not TRUE else tobool(t)
    return r


def OR(*ts):
    r = FALSE
    for t in ts:
        r = ite(t, TRUE, r)
    return r


_rs_memo = {}


def restrict(t, pc):
    """simplify diagram t under the care set pc (a satisfiable 0/1 diagram)"""
    if pc is TRUE or t.op != 'ite':
        return t
    if pc is FALSE:
        return t
    k = (t.id, pc.id)
    r = _rs_memo.get(k)
    if r is not None:
        return r
    at = _top(t, pc)
    p1, p0 = _cof(pc, at, 1), _cof(pc, at, 0)
    if t.a[0] is at:
        if p1 is FALSE:
            r = restrict(t.a[2], p0)
        elif p0 is FALSE:
            r = restrict(t.a[1], p1)
        else:
            r = mk(at, restrict(t.a[1], p1), restrict(t.a[2], p0))
    else:
        if p1 is FALSE:
            r = restrict(t, p0)
        elif p0 is FALSE:
            r = restrict(t, p1)
        else:
            r = restrict(t, ite(mk(at, TRUE, FALSE), p1, TRUE) if False else OR(p1, p0))
    _rs_memo[k] = r
    return r


def leaves(t):
    """set of leaf terms of a diagram"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            st += [x.a[1], x.a[2]]
        else:
            out.append(x)
    return out


def cases(t, pc=TRUE):
    """list of (condition, leaf) with condition a 0/1 diagram; conditions are disjoint"""
    res = {}

    def go(x, p):
        if p is FALSE:
            return
        if x.op == 'ite':
            at = mk(x.a[0], TRUE, FALSE)
            go(x.a[1], AND(p, at))
            go(x.a[2], AND(p, NOT(at)))
        else:
            res[x] = OR(res.get(x, FALSE), p)
    go(t, pc)
    return [(p, x) for x, p in res.items() if p is not FALSE]


def atoms(t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            out.add(x.a[0])
            st += [x.a[1], x.a[2]]
    return out


LIMIT = 200


def map1(f, t):
    if t.op != 'ite':
        return f(t)
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            if x.op == 'ite':
                r = _ite(mk(x.a[0], TRUE, FALSE), go(x.a[1]), go(x.a[2]))
            else:
                r = f(x)
            memo[x.id] = r
        return r
    return go(t)


class _Blow(Exception):
    pass


def map2(f, a, b):
    if a.op != 'ite' and b.op != 'ite':
        return f(a, b)
    memo = {}

    def go(x, y):
        k = (x.id, y.id)
        r = memo.get(k)
        if r is None:
            at = _top(x, y)
            if at is None:
                r = f(x, y)
            else:
                if len(memo) > LIMIT:
                    raise _Blow()
                r = _ite(mk(at, TRUE, FALSE), go(_cof(x, at, 1), _cof(y, at, 1)), go(_cof(x, at, 0), _cof(y, at, 0)))
            memo[k] = r
        return r
    try:
        return go(a, b)
    except _Blow:
        return f(a, b)


# ------------------------------------------------------------------ integer linear forms
def lin(t):
    """(dict term->coef, const) of an integer term"""
    if t.op == 'c' and cv(t) is not None:
        return {}, cv(t)
    if t.op == 'lin':
        return dict(t.a[0]), t.a[1]
    return {t: Fraction(1)}, Fraction(0)


def unlin(d, k):
    items = tuple(sorted(((x, q) for x, q in d.items() if q != 0), key=lambda p: p[0].id))
    if not items:
        return c(k)
    if len(items) == 1 and items[0][1] == 1 and k == 0:
        return items[0][0]
    return raw('lin', items, k)


def iadd(a, b):
    def f(x, y):
        if 'inf' in (x.a[:1] or ('',)) or x.op in ('addr',) or y.op in ('addr',):
            pass
        d, k = lin(x)
        e, m = lin(y)
        for t, q in e.items():
            d[t] = d.get(t, 0) + q
        return unlin(d, k + m)
    return map2(f, a, b)


def iscale(a, q):
    def f(x):
        d, k = lin(x)
        return unlin({t: v * q for t, v in d.items()}, k * q)
    return map1(f, a)


def isub(a, b):
    return iadd(a, iscale(b, Fraction(-1)))


def imul(a, b):
    def f(x, y):
        for p, q in ((x, y), (y, x)):
            if cv(p) is not None:
                return iscale(q, cv(p))
        if y.id < x.id:
            x, y = y, x
        return raw('i*', x, y)
    return map2(f, a, b)


def idiff(a, b):
    """constant difference a-b of two integer terms or None"""
    if a is b:
        return Fraction(0)
    if a.op == 'ite' or b.op == 'ite':
        return None
    d, k = lin(a)
    e, m = lin(b)
    for t, q in e.items():
        d[t] = d.get(t, 0) - q
    if any(q != 0 for q in d.values()):
        return None
    return k - m


# ------------------------------------------------------------------ comparisons
def ilt(a, b):
    """integer a<b as 0/1 diagram; canonical atom  ('ilt0', p)  meaning p<0"""
    def f(x, y):
        p = isub(x, y)
        if cv(p) is not None:
            return TRUE if cv(p) < 0 else FALSE
        d, k = lin(p)
        # normalise sign by the lowest-id variable
        first = min(d, key=lambda t: t.id)
        if d[first] < 0:
            # p<0  <=>  not(-p-1 < 0)
            q = unlin({t: -v for t, v in d.items()}, -k - 1)
            return mk(raw('ilt0', q), FALSE, TRUE)
        return mk(raw('ilt0', p), TRUE, FALSE)
    return map2(f, a, b)


def flt(a, b):
    def f(x, y):
        u, v = cv(x), cv(y)
        if u is not None and v is not None:
            return TRUE if u < v else FALSE
        if x is y:
            return FALSE
        return mk(raw('flt', x, y), TRUE, FALSE)
    return map2(f, a, b)


def fle(a, b):
    def f(x, y):
        u, v = cv(x), cv(y)
        if u is not None and v is not None:
            return TRUE if u <= v else FALSE
        return mk(raw('fle', x, y), TRUE, FALSE)
    return map2(f, a, b)


def eq(a, b, integer=False):
    def f(x, y):
        if x is y:
            return TRUE
        if x.op in ('c', 's', 'null') and y.op in ('c', 's', 'null') and x.op == y.op:
            return FALSE
        if integer and x.op not in ('addr', 'null', 's') and y.op not in ('addr', 'null', 's'):
            p = isub(x, y)
            if cv(p) is not None:
                return TRUE if cv(p) == 0 else FALSE
            d, k = lin(p)
            first = min(d, key=lambda t: t.id)
            if d[first] < 0:
                p = iscale(p, Fraction(-1))
            return mk(raw('ieq0', p), TRUE, FALSE)
        if x.op == 'addr' and y.op == 'addr' and x.a[0].op == 'idx' and y.a[0].op == 'idx' and x.a[0].a[0] is y.a[0].a[0] and len(x.a[0].a) == 2 == len(y.a[0].a):
            return eq(x.a[0].a[1], y.a[0].a[1], True)
        for p, q in ((x, y), (y, x)):
            if p is NULL and q.op in ('addr', 'new', 'lam', 's'):
                return FALSE
            if p.op in ('new',) and q.op in ('new', 'addr'):
                return FALSE
        if y.id < x.id:
            x, y = y, x
        return mk(raw('eq', x, y), TRUE, FALSE)
    return map2(f, a, b)


def ptrbool(p):
    """a pointer used as a condition: the same condition as a comparison with nullptr"""
    return NOT(eq(p, NULL, False))


# ------------------------------------------------------------------ generic application
def app(name, *args):
    return raw('app', name, *args)


def arith(op, a, b):
    """floating point / matrix arithmetic: light folding only"""
    def f(x, y):
        u, v = cv(x), cv(y)
        if u is not None and v is not None:
            if op == '+':
                return c(u + v)
            if op == '-':
                return c(u - v)
            if op == '*':
                return c(u * v)
            if op == '/' and v != 0:
                return c(u / v)
        return raw(op, x, y)
    if a.op == 'ite' or b.op == 'ite':
        if len(leaves(a)) * len(leaves(b)) <= 16:
            return map2(f, a, b)
    return f(a, b)


# ------------------------------------------------------------------ substitution
REBUILD = {}


def rebuild(op, a):
    f = REBUILD.get(op)
    if f:
        return f(*a)
    if op == 'ite':
        return ite(tobool(a[0]), a[1], a[2])
    if op == 'lin':
        r = c(a[1])
        for t, q in a[0]:
            r = iadd(r, iscale(t, q))
        return r
    if op == 'i*':
        return imul(*a)
    if op == 'ilt0':
        return ilt(a[0], ZERO)
    if op == 'ieq0':
        return eq(a[0], ZERO, True)
    if op == 'flt':
        return flt(*a)
    if op == 'fle':
        return fle(*a)
    if op == 'eq':
        return eq(*a)
    if op in ('+', '-', '*', '/') and len(a) == 2:
        return arith(op, *a)
    return raw(op, *a)


def subst(t, m, memo=None):
    """replace terms (by id) according to m: dict id -> term"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = m.get(x.id)
        if r is not None:
            return r
        if x.depth == 1:
            return x
        r = memo.get(x.id)
        if r is None:
            na = tuple(go(y) for y in x.a)
            if all(p is q if isinstance(p, T) else p == q for p, q in zip(na, x.a)):
                r = x
            else:
                r = rebuild(x.op, na)
                if r.ty is None:
                    r.ty = x.ty
            memo[x.id] = r
        return r
    return go(t)


def walk(t, seen=None):
    """all subterms"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(_flat(x.a))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d) for x in t) + ')'
        return str(t)
    if d > 14:
        return '…'
    o, a = t.op, t.a
    if o == 'c':
        v = a[0]
        if isinstance(v, Fraction):
            return str(v) if v.denominator == 1 or abs(v.denominator) < 1000 else repr(float(v))
        return str(v)
    if o == 's':
        return repr(a[0])
    if o == 'null':
        return 'null'
    if o == 'ite':
        if t.a[1] is TRUE and t.a[2] is FALSE:
            return show(a[0], d + 1)
        if t.a[1] is FALSE and t.a[2] is TRUE:
            return '!' + show(a[0], d + 1)
        return '{%s?%s:%s}' % tuple(show(x, d + 1) for x in a)
    if o == 'lin':
        return '(' + '+'.join(('' if q == 1 else str(q) + '*') + show(x, d + 1) for x, q in a[0]) + ('%+d' % a[1] if a[1] and a[1].denominator == 1 else '' if not a[1] else '+' + str(a[1])) + ')'
    if o == 'ilt0':
        return '[%s<0]' % show(a[0], d + 1)
    if o == 'ieq0':
        return '[%s==0]' % show(a[0], d + 1)
    if o in ('flt', 'fle', 'eq'):
        return '[%s%s%s]' % (show(a[0], d + 1), {'flt': '<', 'fle': '<=', 'eq': '=='}[o], show(a[1], d + 1))
    if o in ('+', '-', '*', '/') and len(a) == 2:
        return '(%s%s%s)' % (show(a[0], d + 1), o, show(a[1], d + 1))
    if o == 'init':
        return show(a[0], d + 1)
    if o == 'var':
        return str(a[0])
    if o == 'obj':
        return str(a[0])
    if o == 'fld':
        return show(a[0], d + 1) + '.' + a[1]
    if o == 'idx':
        return show(a[0], d + 1) + '[' + ','.join(show(x, d + 1) for x in a[1:]) + ']'
    if o == 'blk':
        return show(a[0], d + 1) + '.blk(' + ','.join(show(x, d + 1) for x in a[1:]) + ')'
    if o == 'deref':
        return '*' + show(a[0], d + 1)
    if o == 'addr':
        return '&' + show(a[0], d + 1)
    if o == 'mu':
        return 'mu%s<%s>' % (a[0], show(a[1], d + 1))
    if o == 'app':
        return a[0] + '(' + ','.join(show(x, d + 1) for x in a[1:]) + ')'
    return o + '(' + ','.join(show(x, d + 1) for x in a) + ')'
