"""Normal form of matrix expressions: polynomials with commuting scalar and non-commuting matrix factors.

poly = {(scalars, mats): coefficient}; scalars is a sorted tuple of atom ids, mats a tuple of
(atom id, transposed) factors.  Two expressions with the same normal form are equal for all values of
their atoms; the converse may fail, so a difference is reported only against a completely specified
formula whose atoms all resolve.
"""
from fractions import Fraction
from terms import *
import terms as tm

SCALAR_APPS = {'E.sum', 'E.dot', 'E.norm', 'E.squaredNorm', 'E.maxCoeff', 'E.minCoeff', 'lpNorm', 'info', 'E.trace',
               'E.mean', 'E.prod', 'E.determinant', 'E.value'}


class NF:
    def __init__(self, sym=None, scalar=None, vector=None):
        self.sym = sym or (lambda t: False)        # known symmetric atoms
        self.isc = scalar
        self.memo = {}
        self.syn = {}
        self.symids = set()

    # -- helpers
    def scalar(self, t):
        if self.isc is not None:
            r = self.isc(t)
            if r is not None:
                return r
        if t.op in ('c',):
            return True
        if t.op in ('inv',):
            return True
        if t.op == 'app' and t.a[0] in SCALAR_APPS:
            return True
        if t.op == 'app' and t.a[0] in ('transpose', 'solve', 'E.solve', 'Zero', 'Const', 'Identity'):
            return False
        if t.ty is not None:
            if t.ty.get('k') in ('float', 'int', 'bool', 'enum'):
                return True
            if t.ty.get('k') == 'rec':
                return False
        if t.op in ('+', '-', 'neg', '/', '*'):
            return all(self.scalar(x) for x in t.a)
        if t.op in ('i*', 'lin', 'ilt0', 'flt', 'fle'):
            return True
        if t.op in ('init', 'mu', 'hv'):
            l = t.a[-1]
            if isinstance(l, T) and l.op == 'idx':
                return True
        if t.op == 'sel' and t.a[1][0] == 'i':
            return True
        return False

    def add(self, p, q, k=1):
        r = dict(p)
        for m, v in q.items():
            r[m] = r.get(m, 0) + k * v
            if r[m] == 0:
                del r[m]
        return r

    def scale(self, p, k):
        return {m: v * k for m, v in p.items()} if k != 0 else {}

    def mul(self, p, q):
        r = {}
        for (s1, m1), v1 in p.items():
            for (s2, m2), v2 in q.items():
                sc = self.cancel(s1 + s2)
                k = (sc, self.simp(m1 + m2))
                r[k] = r.get(k, 0) + v1 * v2
                if r[k] == 0:
                    del r[k]
        return r

    def cancel(self, sc):
        """x * inv(x) = 1"""
        sc = sorted(sc)
        out = []
        for x in sc:
            t = byid(x)
            if t.op == 'inv' and t.a[0].id in out:
                out.remove(t.a[0].id)
                continue
            iv = raw('inv', t).id
            if iv in out:
                out.remove(iv)
                continue
            out.append(x)
        return tuple(sorted(out))

    def simp(self, ms):
        return ms

    def tr(self, p):
        return {(s_, tuple((f, (not x) if not self.is_sym(f) else False) for f, x in reversed(m))): v for (s_, m), v in p.items()}

    def is_sym(self, fid):
        t = byid(fid)
        return fid in self.symids or self.sym(t)

    def key(self, p):
        """canonical hash-consed term of a polynomial"""
        return raw('poly', tuple(sorted((m, v) for m, v in p.items())))

    def atom(self, t, mat):
        if mat:
            return {((), ((t.id, False),)): Fraction(1)}
        return {((t.id,), ()): Fraction(1)}

    def canon(self, t):
        """canonical atom for a term with polynomial sub-expressions"""
        return t

    def scalarize(self, p):
        """1x1 matrix polynomial -> scalar polynomial: each matrix word becomes a scalar atom, canonical up to transposition"""
        r = {}
        for (s_, m), v in p.items():
            if m:
                m2 = tuple((f, (not x) if not self.is_sym(f) else False) for f, x in reversed(m))
                w = raw('word', min(m, m2))
                k = (self.cancel(s_ + (w.id,)), ())
            else:
                k = (s_, ())
            r[k] = r.get(k, 0) + v
            if r[k] == 0:
                del r[k]
        return r

    def inv(self, p):
        """reciprocal of a scalar polynomial"""
        if len(p) == 1:
            (s_, m), v = next(iter(p.items()))
            if not m:
                out = []
                for x in s_:
                    t = byid(x)
                    out.append(t.a[0].id if t.op == 'inv' else raw('inv', t).id)
                return {(tuple(sorted(out)), ()): 1 / v}
        if not p or any(m for (_, m) in p):
            return self.atom(raw('inv', self.key(p)), False)
        # canonical up to common scalar factors and a constant
        from collections import Counter
        com = None
        for (s_, m) in p:
            cn = Counter(s_)
            com = cn if com is None else com & cn
        com = sorted(com.elements())
        q = {}
        for (s_, m), v in p.items():
            l = list(s_)
            for x in com:
                l.remove(x)
            q[(tuple(l), m)] = v
        k = q[min(q)]
        q = {m: v / k for m, v in q.items()}
        out = [raw('inv', self.key(q)).id]
        for x in com:
            t = byid(x)
            out.append(t.a[0].id if t.op == 'inv' and t.a[0].op != 'poly' else raw('inv', t).id)
        return {(tuple(sorted(out)), ()): 1 / k}

    def nf(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._nf(t)
        return r

    def _nf(self, t):
        k = cv(t)
        if k is not None:
            return {((), ()): k} if k != 0 else {}
        o = t.op
        if o == '+':
            return self.add(self.nf(t.a[0]), self.nf(t.a[1]))
        if o == '-':
            return self.add(self.nf(t.a[0]), self.nf(t.a[1]), -1)
        if o == 'neg':
            return self.scale(self.nf(t.a[0]), -1)
        if o == 'lin':
            r = {((), ()): t.a[1]} if t.a[1] else {}
            for x, q in t.a[0]:
                r = self.add(r, self.nf(x), q)
            return r
        if o in ('*', 'i*'):
            return self.mul(self.nf(t.a[0]), self.nf(t.a[1]))
        if o == '/':
            return self.mul(self.nf(t.a[0]), self.inv(self.nf(t.a[1])))
        if o == 'app':
            n = t.a[0]
            if n == 'transpose':
                return self.tr(self.nf(t.a[1]))
            if n == 'Zero':
                return {}
            if n == 'Identity':
                return {((), ()): Fraction(1)}
            if n == 'E.dot':
                return self.scalarize(self.mul(self.tr(self.nf(t.a[1])), self.nf(t.a[2])))
            if n == 'E.squaredNorm':
                p = self.nf(t.a[1])
                return self.scalarize(self.mul(self.tr(p), p))
            if n in ('E.solve', 'solve') and t.a[1].op == 'app' and t.a[1].a[0] in ('LLT', 'LDLT'):
                return self.mul(self.invm(t.a[1].a[1]), self.nf(t.a[2]))
            if n == 'E.inverse' and len(t.a) == 2:
                return self.invm(t.a[1])
            if n == 'E.value' or n == 'E.trace' and False:
                return self.scalarize(self.nf(t.a[1]))
        if o in ('sel',) and t.a[1][0] == 'i' and all(x is ZERO for x in t.a[1][1:]) and t.a[0].op in ('*',):
            return self.scalarize(self.nf(t.a[0]))
        if o == 'ite':
            # diagrams with equal leaves were merged already; opaque otherwise
            pass
        return self.atom(t, not self.scalar(t))

    def invm(self, m):
        p = self.nf(m)
        a = raw('Inv', self.key(p))
        if p == self.tr(p):
            self.symids.add(a.id)
        return self.atom(a, True)

    def eq(self, a, b):
        """a and b denote the same value (case-wise on decision diagrams)"""
        if a is b:
            return True
        if a.op == 'ite' or b.op == 'ite':
            try:
                d = map2(lambda x, y: TRUE if self.eq(x, y) else FALSE, a, b)
            except tm._Blow:
                return False
            return d is TRUE
        return self.nf(a) == self.nf(b)

    def show(self, p):
        out = []
        for (s_, m), v in sorted(p.items()):
            out.append(' '.join([str(v)] + [show(byid(x)) for x in s_] + [show(byid(f)) + ("'" if x else '') for f, x in m]))
        return ' + '.join(out) or '0'
