"""C41: what the console log prints, where, and when."""
from rulelib import *
from rules.kpf import *
from rules.life import rfields, ftype, S_INIT as S0

SL, LE = 'altro::SolverLogger', 'altro::LogEntry'
ROWS = 7          # header frequencies the refutation of a header schedule looks at


def runs(R, q):
    return [(f, R.run(None, fn=f)) for f in R.P.find(q)]


def one(R, q):
    rs = runs(R, q)
    if not rs:
        raise Removed(q.split('::')[-1], 'the method is gone')
    return rs[0]


def getfield(R, cls, getter):
    """name of the member a plain getter gives"""
    f, en = one(R, cls + '::' + getter)
    v = en.ret
    l = v.a[0] if v is not None and v.op in ('init', 'addr') else None
    return l.a[1] if l is not None and l.op == 'fld' and l.a[0] is THIS else None


def strvec(R, r):
    for x in r['fs']:
        s = ftype(r, x)['s']
        if s.startswith('std::vector<') and 'string' in s:
            return fld(THIS, x['n'])
    return None


def entry_of(v, name):
    """location of the entry whose member `name` the value v reads"""
    while v is not None and v.op == 'app' and ('ctor' in str(v.a[0]) or str(v.a[0]).startswith('cast')) and len(v.a) == 2:
        v = v.a[1]
    if v is not None and v.op == 'init' and v.a[0].op == 'fld' and v.a[0].a[1] == name:
        return v.a[0].a[0]
    return None


class Names:
    pass


def names(R):
    N = Names()
    N.title, N.width, N.level, N.format = (getfield(R, LE, g) for g in ('GetTitle', 'GetWidth', 'GetLevel', 'GetFormat'))
    N.lvl = fld(THIS, getfield(R, SL, 'GetLevel'))
    r = R.P.rec(SL)
    N.rec = r
    N.order = strvec(R, r)
    N.entries = None
    for x in r['fs']:
        if 'map<' in ftype(r, x)['s']:
            N.entries = fld(THIS, x['n'])
    N.data = None
    for f, en in runs(R, LE + '::Log'):
        for e in stores(en, lambda l: l is not None and l.op == 'fld' and l.a[0] is THIS):
            if contains(e.val, lambda x: x.op == 'app' and 'format' in str(x.a[0])) and 'color' not in e.loc.a[1]:
                N.data = e.loc.a[1]
    return N


def active(N, E):
    return NOT(ilt(S0.read(N.lvl), S0.read(fld(E, N.level))))


def speaking(N):
    return ilt(ZERO, S0.read(N.lvl))


@rule('C41', 'path analysis of every formatted output and of the header schedule (inductive invariant of the row counter)')
def c41(R):
    N = names(R)
    if None in (N.title, N.width, N.level, N.data, N.order, N.entries):
        return R.ob('the log is understood', None, None, 'members %s' % {k: str(v) for k, v in vars(N).items() if k != 'rec'})
    for n, part, what in (('PrintHeader', N.title, 'title'), ('PrintData', N.data, 'value')):
        R.sub(row, N, n, part, what)
    R.sub(schedule, N)
    R.sub(logging, N)
    R.sub(adding, N)
    R.sub(bounds, N)


def prints(en):
    return [e for e in calls(en) if e.name in ('print', 'printf', 'fprintf', 'vprint', 'println', 'puts', 'fputs', 'putchar')]


def row(R, N, n, part, what):
    f, en = one(R, SL + '::' + n)
    ps = prints(en)
    quiet = tobool(eq(S0.read(N.lvl), ZERO, True))
    for e in ps:
        R.ob('nothing is printed at the silent level', not sat(AND(e.pc, quiet)) or (None if unresolved_pc(en, e) else False), e, 'printed when the level is silent')
    parts, odd, wrong = [], 0, None
    for e in ps:
        for i, a in enumerate(e.args):
            E = entry_of(a[1], part) if a[1] is not None else None
            if E is None:
                continue
            if contains(E, lambda x: x.op == 'idx' and x.a[0] is N.entries and x.a[1].op == 'mu'):
                wrong = (e, 'in the order of the table, not of the columns')
            if not (E.op == 'idx' and E.a[0] is N.entries):
                odd += 1
                continue
            k = E.a[1]
            l = k.a[0] if k.op == 'init' else None
            if l is None or l.op != 'idx' or l.a[0] is not N.order:
                odd += 1
                continue
            parts.append((e, l.a[1], E))
            R.ob('only active columns are printed', implies(e.pc, tobool(active(N, E)), assumed(en, e)) or (None if unresolved_pc(en, e) else False), e, 'printed whatever its level is')
            w = [x for x in e.args if x[1] is not None and entry_of(x[1], N.width) is not None]
            R.ob('a column is printed at its own width', True if any(entry_of(x[1], N.width) is E for x in w) else (False if w else None), e, 'width of another column' if w else 'no width')
    name = 'each active column shows its %s once, in the order of the columns' % what
    if not parts and wrong is None:
        for e in ps:
            for a in e.args:
                v = a[1]
                if v is not None and v.op == 'init' and v.a[0].op == 'fld' and v.a[0].a[0].op == 'idx' and v.a[0].a[0].a[0] is N.entries and v.a[0].a[1] != N.width and 'color' not in v.a[0].a[1]:
                    wrong = (e, 'prints %s' % v.a[0].a[1])
    if wrong:
        return R.ob(name, False, wrong[0], wrong[1])
    if odd or not parts:
        others = [e for e in ps if any(a[1] is not None and entry_of(a[1], N.title if what == 'value' else N.data) is not None for a in e.args)]
        return R.ob(name, False if others and not odd else None, others[0] if others else en.root, 'prints something else' if others else 'not understood')
    for e, i, E in parts:
        iv = interval(en, e, i)
        if iv is not None and iv[2] == -1:
            R.ob(name, False, e, 'printed in reverse order')
    E = parts[0][2]
    given = AND(tobool(speaking(N)), tobool(active(N, E)))
    R.sub(covers, en, name, [(e, ((i, ZERO, S0.read(fld(N.order, '#size'))),)) for e, i, _ in parts], None, en.root, given=given)


# ---------------------------------------------------------------- the header schedule
def counter(R, N, en, freq):
    """the member that counts the rows"""
    ls = {e.loc for e in en.events if e.kind == 'store' and e.loc is not None and e.loc.op == 'fld' and e.loc.a[0] is THIS and e.loc is not freq and ftype(N.rec, [x for x in N.rec['fs'] if x['n'] == e.loc.a[1]][0]).get('k') == 'int'}
    return ls.pop() if len(ls) == 1 else None


def at(t, cnt, f):
    """t for the given row counter and frequency, where remainders of known numbers are worked out; None if one divides by zero"""
    m = {k.id: c(v) for k, v in ((cnt[0], cnt[1]), (f[0], f[1]))}
    for x in list(walk(t)):
        if x.op == 'app' and x.a[0] in ('imod', 'idiv'):
            a, b = subst(x.a[1], m), subst(x.a[2], m)
            u, v = cv(a), cv(b)
            if u is None or v is None:
                continue
            if v == 0:
                m[x.id] = ZERO if x.a[0] == 'imod' else ZERO
                continue
            q = int(u / v) if u * v >= 0 else -int(-u / v)
            m[x.id] = c(q) if x.a[0] == 'idiv' else c(u - q * v)
    return subst(t, m)


def truth(t):
    return True if t is TRUE else False if t is FALSE else (bool(cv(t)) if cv(t) is not None else None)


def known_init(N, loc):
    for x in N.rec['fs']:
        if x['n'] == loc.a[1]:
            i = x.get('i') or {}
            return i.get('cv', i.get('v'))
    return None


def schedule(R, N):
    P = R.P
    fs, sen = one(R, SL + '::SetFrequency')
    fl = [e for e in stores(sen, lambda l: l is not None and l.op == 'fld' and l.a[0] is THIS)]
    if len(fl) != 1:
        return R.ob('the header frequency is set', False if not fl and not sen.unsupported else None, sen.root)
    freq = fl[0].loc
    arg = S0.read(raw('obj', 'arg0'))
    R.ob('the header frequency is the one given', fl[0].val is arg or (None if unresolved(fl[0].val) else False), fl[0], show(fl[0].val)[:80])
    f, en = one(R, SL + '::Print')
    hs = [e for e in calls(en, q=SL + '::PrintHeader') if e.recv is THIS and len(e.stack) <= 1]
    ds = [e for e in calls(en, q=SL + '::PrintData') if e.recv is THIS]
    # division
    zero = False
    for w in (e for l, z in runs(R, SL + '::SetFrequency') for e in stores(z, lambda l: l is freq)):
        pos = tobool(ilt(ZERO, w.val))
        zero = zero or not implies(w.pc, OR(pos, tobool(ilt(w.val, ZERO))), assumed(sen, w))
    for e in en.events:
        if e.kind == 'div':
            nz = NOT(tobool(eq(e.val, ZERO, True)))
            ok = implies(e.pc, nz, assumed(en, e))
            if not ok and e.val is S0.read(freq):
                ok = not zero
            R.ob('printing never divides by zero', True if ok else (None if e.val.op in UNRES or e.val.op in ('ret', 'app') else False), e, 'divisor %s may be zero' % show(e.val))
    R.ob('the header schedule is analysed', True, en.root)
    if len(ds) != 1:
        R.ob('every row is printed once', False if not ds and not prints(en) else None, ds[0] if ds else en.root, '%d calls' % len(ds))
    else:
        R.ob('every row is printed once', always(en, ds[0]) and not ds[0].loops, ds[0], 'skipped on some path')
    if len(hs) != 1 or hs[0].loops:
        return R.ob('the header is printed before the first row and then at its frequency', False if not hs and not prints(en) else None, en.root, '%d header calls' % len(hs))
    if ds:
        R.ob('the header comes before its row', hs[0].seq < ds[0].seq, hs[0])
    cnt = counter(R, N, en, freq)
    name = 'the header is printed before the first row and then once every `frequency` rows'
    if cnt is None:
        ws = [e for e in en.events if e.kind == 'store' and e.loc is not None and e.loc.op == 'fld' and e.loc.a[0] is THIS]
        return R.ob(name, False if not ws and not en.unsupported else None, en.root, 'no row is ever counted')
    H, nxt = hs[0].pc, en.final.read(cnt)
    C, F = S0.read(cnt), S0.read(freq)
    loud = tobool(NOT(eq(S0.read(N.lvl), ZERO, True)))
    H, nxt = restrict(tobool(H), loud), restrict(nxt, loud)
    c0 = known_init(N, cnt)
    if c0 is None:
        return R.ob(name, None, en.root, 'initial value of %s unknown' % show(cnt))
    why = proved(H, nxt, C, F) if c0 == 0 else 'starts at %s' % c0
    if why is None:
        R.ob(name, True, hs[0], 'invariant 0 <= %s <= %s' % (show(cnt), show(freq)))
    else:
        R.ob(name, refuted(H, nxt, C, F, c0), hs[0], why)
    # a cleared log starts with a header
    g, cen = one(R, SL + '::Clear')
    v = cen.final.read(cnt)
    k = cv(v)
    if k is not None:
        ok = all(truth(at(H, (C, k), (F, x))) for x in range(1, ROWS))
        R.ob('a cleared log starts with the header', ok, cen.root, '%s is %s after Clear' % (show(cnt), k))
    else:
        R.ob('a cleared log starts with the header', False if v is C else None, cen.root, '%s is %s after Clear' % (show(cnt), show(v)[:80]))
    sts = [e for e in cen.events if e.kind in ('store', 'call') and e.loops and (e.loc if e.kind == 'store' else e.recv) is not None]
    parts = []
    for e in cen.events:
        if e.kind == 'store' and e.loc is not None and e.loc.op == 'fld' and e.loc.a[1] == N.data:
            E = e.loc.a[0]
            E = E.a[0] if E.op == 'fld' else E
            if E.op == 'idx' and E.a[0] is N.entries and E.a[1].op in ('mu', 'app', '+', 'lin') or E.op == 'idx' and E.a[0] is N.entries and E.a[1].op != 'init':
                parts.append((e, ((E.a[1], ZERO, S0.read(fld(N.entries, '#size'))),)))
                empty = e.val.op == 'app' and str(e.val.a[0]).endswith('clear') or show(e.val) == "''"
                R.ob('a cleared entry shows nothing', True if empty else None, e, show(e.val)[:80])
            elif E.op == 'idx' and E.a[0] is N.entries and E.a[1].op == 'init' and E.a[1].a[0].op == 'idx' and E.a[1].a[0].a[0] is N.order:
                parts.append((e, ((E.a[1].a[0].a[1], ZERO, S0.read(fld(N.order, '#size'))),)))
    if parts:
        R.sub(covers, cen, 'clearing the log empties every entry', parts, None, cen.root)
    else:
        wiped = [e for e in calls(cen) if e.recv is N.entries]
        R.ob('clearing the log empties every entry', None if wiped or cen.unsupported or any(e.loops for e in cen.events) else False, cen.root, 'no entry is emptied')


def proved(H, nxt, C, F):
    """None when the schedule follows from the invariant 0 <= C <= F, else what fails.  Under the invariant and F > 0 the
    remainder C % F is zero exactly for C = 0 and C = F."""
    Z = OR(tobool(eq(C, ZERO, True)), tobool(eq(C, F, True)))

    def plain(t):
        for a in sorted(atoms(t), key=lambda x: x.id):
            if contains(a, lambda x: x.op == 'app' and x.a[0] == 'imod'):
                if a.op != 'ieq0' or not (a.a[0].op == 'app' and a.a[0].a[1] is C and a.a[0].a[2] is F):
                    return None
                b = mk(a, TRUE, FALSE)
                t = ite(Z, restrict(t, b), restrict(t, NOT(b)))
        return t
    inv = AND(tobool(ilt(ZERO, F)), AND(NOT(tobool(ilt(C, ZERO))), NOT(tobool(ilt(F, C)))))
    H2, n2 = plain(tobool(H)), plain(nxt)
    if H2 is None or n2 is None or contains(n2, lambda x: x.op in ('imod', 'idiv')):
        return 'schedule not understood'
    if not implies(AND(inv, Z), H2):
        return 'no header when due'
    if not implies(AND(inv, H2), Z):
        return 'a header when none is due'
    for q, v in cases(n2):
        p = AND(q, inv)
        if not sat(p):
            continue
        if sat(AND(p, Z)) and not (cv(v) == 1 or v is iadd(C, ONE) and implies(AND(p, Z), tobool(eq(C, ZERO, True)))):
            return 'rows since the header: %s' % show(v)[:60]
        if sat(AND(p, NOT(Z))) and v is not iadd(C, ONE):
            return 'rows since the header: %s' % show(v)[:60]
    return None


def refuted(H, nxt, C, F, c0):
    """False when some frequency below ROWS gives a wrong schedule, None when none of them does"""
    for f in range(1, ROWS):
        ks = {int(c0)}
        for i in range(3 * f + 2):
            new = set()
            for k in ks:
                h = truth(at(H, (C, k), (F, f)))
                if h is None:
                    return None
                if h != (i % f == 0):
                    return False
                for q, v in cases(at(nxt, (C, k), (F, f))):
                    if cv(v) is None or contains(q, lambda x: x.op in ('ret', 'hv', 'mu', 'undef', 'unk', 'pat')):
                        return None
                    new.add(int(cv(v)))
            ks = new
    return None


# ---------------------------------------------------------------- storing values
def logging(R, N):
    rs = runs(R, SL + '::Log')
    R.ob('values can be logged', True if rs else None, None)
    for f, en in rs:
        E = idx(N.entries, S0.read(raw('obj', 'arg0')))
        ss = [e for e in en.events if e.kind == 'store' and e.loc is not None and e.loc.op == 'fld' and e.loc.a[1] == N.data]
        name = 'a logged value is stored in the column of its name when that column is active'
        if not ss:
            R.ob(name, None if en.unsupported else False, en.root, 'nothing is stored')
            continue
        want = AND(tobool(speaking(N)), tobool(active(N, E)))
        got = FALSE
        for e in ss:
            R.ob('a logged value goes to the column of its name', e.loc.a[0] is E or (None if unresolved(e.loc) else False), e, show(e.loc)[:120])
            got = OR(got, e.pc)
            fm = S0.read(fld(E, N.format)) if N.format else None
            ar = S0.read(raw('obj', 'arg1'))
            hasv = contains(e.val, lambda x: x is ar or x is raw('obj', 'arg1'))
            R.ob('the stored text is the value in the format of its column', True if hasv and (fm is None or contains(e.val, lambda x: x is fm)) else (None if unresolved(e.val) else False), e, show(e.val)[:120])
        if e.loc.a[0] is E:
            R.ob(name, implies(want, got, assumed(en)) or (None if unresolved_pc(en, ss[0]) else False), ss[0], 'an active column is skipped')
            R.ob('nothing is stored in a column that is not active', implies(got, tobool(active(N, E)), assumed(en)) or (None if unresolved_pc(en, ss[0]) else False), ss[0])


def bounds(R, N):
    """conditional colours"""
    low, high = one(R, LE + '::SetLowerBound')[1], one(R, LE + '::SetUpperBound')[1]
    a0, a1 = S0.read(raw('obj', 'arg0')), S0.read(raw('obj', 'arg1'))

    def what(en, lab):
        out = [None, None, None]
        for e in stores(en, lambda l: l is not None and l.op == 'fld' and l.a[0] is THIS):
            v = e.val
            if contains(v, lambda x: x is a0):
                out[0] = e.loc.a[1]
                R.ob('the %s bound is the one given' % lab, v is a0 or v is S0.read(deref(a0)) or (None if unresolved(v) else False), e, show(v)[:80])
            elif contains(v, lambda x: x is a1):
                out[1] = e.loc.a[1]
            elif v is TRUE or cv(v) == 1:
                out[2] = e.loc.a[1]
            R.ob('setting a bound is unconditional', always(en, e) or (None if unresolved_pc(en, e) else False), e)
        R.ob('setting the %s bound stores bound and colour' % lab, None not in out[:2] or (None if en.unsupported else False), en.root, str(out))
        return out
    lo, hi = what(low, 'lower'), what(high, 'upper')
    if None in lo[:2] or None in hi[:2]:
        return
    R.ob('the two bounds are kept apart', lo[0] != hi[0] and lo[1] != hi[1], low.root, '%s and %s' % (lo, hi))
    for f, en in runs(R, LE + '::Log'):
        ty = f['T'][f['ps'][0]['t']] if f['ps'] else {}
        if ty.get('k') != 'float':
            continue
        v = S0.read(raw('obj', 'arg0'))
        L, U = S0.read(fld(THIS, lo[0])), S0.read(fld(THIS, hi[0]))
        cl, ch = S0.read(fld(THIS, lo[1])), S0.read(fld(THIS, hi[1]))
        st = [e for e in stores(en, lambda l: l is not None and l.op == 'fld' and l.a[0] is THIS and l.a[1] not in (N.data,)) if contains(e.val, lambda x: x in (cl, ch))]
        if not st:
            R.ob('values out of bounds get the colour of the bound', None, en.root, 'not understood')
            continue
        got = en.final.read(st[-1].loc)
        b = TRUE
        for z in {lo[2], hi[2]}:
            if z is not None:
                b = AND(b, tobool(S0.read(fld(THIS, z))))
        for z in sorted(atoms(got), key=lambda x: x.id):
            if z.op == 'init' and z.a[0].op == 'fld' and z.a[0].a[0] is THIS:
                for en2, o, lab in ((low, lo, 'lower'), (high, hi, 'upper')):
                    R.ob('setting the %s bound switches the colours on' % lab, False if en2.final.read(z.a[0]) is z else truth(en2.final.read(z.a[0])), en2.root, '%s stays %s' % (show(z), show(en2.final.read(z.a[0]))))
        inside = NOT(OR(tobool(flt(v, L)), tobool(flt(U, v))))
        order = tobool(fle(L, U))
        for q, x in cases(got):
            if x is cl:
                ok = implies(q, tobool(flt(v, L)), order)
            elif x is ch:
                ok = implies(q, tobool(flt(U, v)), order)
            elif unresolved(x):
                ok = None
            else:
                ok = not sat(AND(AND(q, b), NOT(inside)))
            R.ob('values out of bounds get the colour of the bound', ok, st[-1], '%s under %s' % (show(x)[:60], show(q)[:120]))


def adding(R, N):
    rs = runs(R, SL + '::AddEntry')
    R.ob('columns can be added', True if rs else None, None)
    size = S0.read(fld(N.order, '#size'))
    for f, en in rs:
        ins = [e for e in calls(en) if e.recv is N.order and e.name in ('insert', 'emplace', 'push_back', 'emplace_back')]
        name = 'a column is added at the index given, counted from the end when it is negative'
        if len(ins) != 1:
            R.ob(name, False if not ins and not en.unsupported else None, ins[0] if ins else en.root, '%d insertions' % len(ins))
            continue
        e = ins[0]
        col = S0.read(raw('obj', 'arg0'))
        if col.op != 'init' or True:
            col = [x for x in (col, S0.read(deref(col))) if contains(e.pc, lambda y: y is x) or any(a[1] is not None and contains(a[1], lambda y: y is x) for a in e.args)]
            col = col[0] if col else S0.read(raw('obj', 'arg0'))
        neg = tobool(ilt(col, ZERO))
        R.ob('every added column is shown', always(en, e), e, 'left out on some path')
        if e.name.endswith('_back'):
            pos = [(TRUE, size)]
        else:
            pos = []
            for q, x in cases(e.args[0][1]):
                l = x.a[0] if x.op == 'addr' else None
                pos.append((q, l.a[1] if l is not None and l.op == 'idx' and l.a[0] is N.order else None))
        for q, i in pos:
            if i is None:
                R.ob(name, None, e, 'position not understood')
                continue
            asm = assumed(en, e)
            ok = True
            for cnd, want in ((neg, iadd(iadd(size, col), ONE)), (NOT(neg), col)):
                for q2, j in cases(i):
                    p = AND(AND(AND(q, q2), e.pc), cnd)
                    if sat(p) and not implies(p, FALSE, asm) and not implies(p, tobool(eq(j, want, True)), asm):
                        ok = False if idiff(j, want) is not None or not unresolved(j) else None
            R.ob(name, ok, e, 'inserted at %s' % show(i))
        st = [z for z in calls(en) if z.recv is N.entries and z.name in ('emplace', 'insert', 'insert_or_assign', 'try_emplace', 'operator[]')]
        R.ob('an added column has an entry', True if st and always(en, st[0]) else (None if en.unsupported or st else False), st[0] if st else en.root, 'no entry is stored')
        k = e.args[-1][1]
        t = S0.read(raw('obj', 'arg1'))
        R.ob('a column is listed under its title', True if contains(k, lambda x: x is t) else (None if unresolved(k) else False), e, show(k)[:80])
