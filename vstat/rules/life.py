"""Copying, moving and construction of library objects (C24, C25, C26)."""
from rulelib import *
from rules.kpf import *
from rules.ilqr import *
from rules.ilqr2 import *
from rules.par import *

ARG0 = raw('obj', 'arg0')
SPECIAL = ('cc', 'mc', 'ca', 'ma')
SPNAME = {'cc': 'copy constructor', 'mc': 'move constructor', 'ca': 'copy assignment', 'ma': 'move assignment'}
THREADISH = ('altro::ThreadPool', 'std::thread', 'std::mutex', 'std::condition_variable', 'std::recursive_mutex', 'std::jthread')


def librecs(R, examples=False):
    """one record per library class template instantiation that has bodies"""
    out = []
    for k, r in sorted(R.P.recs.items()):
        if k.startswith('lambda') or 'altro' not in k or 'verif_driver' in k:
            continue
        q = facts.strip_targs(r['q'])
        if not examples and (q.startswith('altro::examples') or q.startswith('altro::problems')):
            continue
        out.append(r)
    return out


def rfields(R, r):
    """(record, field, path of base-free names) of all fields, bases included"""
    for b in r['bs']:
        br = R.P.recs.get(b if isinstance(b, str) else b[0])
        if br is not None:
            for x in rfields(R, br):
                yield x
    for x in r['fs']:
        yield r, x


def ftype(r, x):
    return r['T'][x['t']]


def bound_type(t):
    """members documented as bound to one object: threads, locks, the thread pool and the task closures"""
    s = t.get('s', '')
    b = t.get('rec') or s
    return any(b == z or b.startswith(z + '<') for z in THREADISH) or \
        s.startswith('std::vector<') and ('std::thread' in s.split(',')[0] or 'std::function<void' in s.split(',')[0] or 'packaged_task' in s.split(',')[0])


def same_value(R, en, r, x, dst, src, depth=0):
    """True/False/None: the member at dst (exit state) has the value the member at src had at entry"""
    got, want = other(en.final.read(dst), S_INIT.read(dst), S_INIT.read(src)), S_INIT.read(src)
    if got is want:
        return True, ''
    g = got
    while g.op == 'app' and str(g.a[0]).startswith(('ctor:std::atomic', 'cast', 'std::atomic')) and len(g.a) == 2:
        g = g.a[1]
    if g.op in ('i2f', 'cast') and g.a[-1] is want or g is want or contains_only_ctor(g, want):
        return True, ''
    t = ftype(r, x)
    if (t.get('rec') or '').startswith('std::shared_ptr') or t.get('k') == 'ptr':
        # a deep copy: the pointed-to value equals the source's pointed-to value
        try:
            wv = S_INIT.read(deref(want))
            gv = other(en.final.read(deref(got)), S_INIT.read(deref(S_INIT.read(dst))), wv)
            if gv is wv or NF().eq(gv, wv):
                return True, ''
        except Exception:
            pass
    rec = R.P.recs.get(t.get('rec') or '')
    if rec is not None and depth < 4:
        rs = []
        for r2, x2 in rfields(R, rec):
            if bound_type(ftype(r2, x2)):
                continue
            a, d = same_value(R, en, r2, x2, fld(dst, x2['n']), fld(src, x2['n']), depth + 1)
            rs.append((a, x2['n'] + ('.' + d if d else '')))
        bad = [d for a, d in rs if a is False]
        if bad:
            return False, ', '.join(bad)
        if all(a for a, _ in rs):
            return True, ''
        return None, ', '.join(d for a, d in rs if a is None)
    if 'std::function' in t.get('s', '') and got.op in ('lam', 'ite') and \
            all(v is want or v.op == 'lam' and closures_of(v, root(dst)) for _, v in (cases(got) if got.op == 'ite' else [(TRUE, got)])):
        return True, ''      # re-targeted to the new object (C25)
    if unresolved(got):
        return None, ''
    return False, ''


def other(v, mine, his):
    """v when the operand is another object; assigning an object to itself may leave everything as it is"""
    if v.op == 'ite':
        for at in atoms(v):
            if at.op in ('ieq0', 'ne0', 'eq') and contains(at, lambda x: x is addr(THIS)) and contains(at, lambda x: x is addr(ARG0)):
                same = mk(at, TRUE, FALSE)
                if restrict(v, same) in (mine, his):
                    return restrict(v, NOT(same))
    return v


def root(l):
    while l.op in ('fld', 'idx', 'blk') and isinstance(l.a[0], T):
        l = l.a[0]
    return l


def contains_only_ctor(g, want):
    return g.op == 'app' and 'ctor' in str(g.a[0]) and len(g.a) == 2 and g.a[1] is want


S_INIT = engine.State()


def special(r, kind):
    for m in r['ms']:
        if m.get(kind):
            return m
    return None


@rule('C24', 'per-field transfer analysis of every user-provided copy and move operation')
def c24(R):
    """every user-provided special member leaves each field of the target equal to the source's field at entry"""
    n = 0
    for r in librecs(R):
        fields = list(rfields(R, r))
        for kind in SPECIAL:
            m = special(r, kind)
            if m is None or m.get('del') or m.get('dfl'):
                continue
            f = R.P.fns.get(m.get('key'))
            if f is None:
                continue
            R.sub(transfer, r, fields, f, SPNAME[kind])
            n += 1
        # converting constructors from another instantiation of the same template
        for f in R.P.fns.values():
            if f.get('cls') == r['key'] and f.get('ctor') and len(f['ps']) == 1 and f.get('inst_conv'):
                pass
    conv = [f for f in R.P.fns.values() if f.get('ctor') and f.get('ps') and len(f['ps']) == 1 and not f.get('cc') and not f.get('mc')
            and f.get('cls') and facts.strip_targs(f['cls']) == facts.strip_targs(ptype(R, f, 0)) and f['cls'] != ptype(R, f, 0)
            and f['cls'] in R.P.recs and ptype(R, f, 0) in R.P.recs and facts.strip_targs(f['cls']).startswith('altro')]
    for f in conv:
        r = R.P.recs[f['cls']]
        R.sub(transfer, r, list(rfields(R, r)), f, 'conversion')
        n += 1
    R.ob('copy and move operations analysed', n >= 1 or None, None, '%d operations' % n)


def ptype(R, f, i):
    p = f['p'][i] if isinstance(f['p'][i], int) else f['ps'][i].get('t')
    t = f['T'][p]
    return t.get('rec') or t.get('pt') or ''


def transfer(R, r, fields, f, what):
    en = R.run(None, fn=f)
    cls = facts.strip_targs(r['q'])
    for rr, x in fields:
        t = ftype(rr, x)
        nm = x['n']
        ok, d = same_value(R, en, rr, x, fld(THIS, nm), fld(ARG0, nm))
        if bound_type(t):
            # running threads and their closures stay with their object: either nothing or all of it is taken over
            got = en.final.read(fld(THIS, nm))
            R.ob('members bound to one object are fresh or taken over whole', True if ok or not has_arg0_closure(got) else False, f, '%s::%s' % (cls, nm))
            continue
        got = en.final.read(fld(THIS, nm))
        R.ob('every member is transferred', ok, f, '%s of %s: member %s%s has value %s' % (what, cls, nm, ' (%s)' % d if d else '', show(got)[:200]))
    if not f.get('ctor'):
        return


def has_arg0_closure(v):
    return contains(v, lambda x: x.op == 'lam' and any(c[0] == 'this' and contains(c[1], lambda y: y is ARG0) for c in x.a[1]))


# ------------------------------------------------------------------ C25
def declared(r, kind):
    return special(r, kind)


def can(R, r, kind, depth=0):
    """None: not available; 'implicit' or the member record of a user-provided operation"""
    m = special(r, kind)
    if m is not None:
        if m.get('del'):
            return None
        if not m.get('dfl') and m.get('key') in R.P.fns:
            return m
    else:
        others = [k for k in SPECIAL if k != kind and special(r, k) is not None and not special(r, k).get('impl')]
        if kind in ('cc', 'ca') and any(k in ('mc', 'ma') for k in others):
            return None
        if kind in ('mc', 'ma') and others:
            # falls back to the copy operation when there is one
            return None
    if depth < 5:
        for rr, x in rfields(R, r):
            t = ftype(rr, x)
            s = t.get('s', '')
            if kind in ('cc', 'ca') and ('unique_ptr' in s or 'std::thread' in s or 'std::future' in s or 'std::packaged_task' in s):
                return None
            if 'std::mutex' == s or 'std::condition_variable' == s or s.startswith('std::atomic'):
                return None
            if kind in ('ca', 'ma') and (t.get('cst') or t.get('ref')):
                return None
            rec = R.P.recs.get(t.get('rec') or '')
            if rec is not None and rec is not r:
                if can(R, rec, kind, depth + 1) is None and (kind in ('cc', 'ca') or can(R, rec, 'cc' if kind == 'mc' else 'ca', depth + 1) is None):
                    return None
    return 'implicit'


def closures_of(v, base):
    """closures in v that capture base, and addresses inside base"""
    return contains(v, lambda x: x.op == 'lam' and any(c[0] == 'this' and contains(c[1], lambda y: y is base) for c in x.a[1])
                    or x.op == 'lam' and any(len(c) > 2 and c[1] == 'ref' and under(engine._deref_t(c[2]), base) for c in x.a[1] if c[0] != 'this'))


def self_addr(v, base):
    """the value itself (not an operand of a computed value) is an address inside base"""
    vs = [x for _, x in cases(v)] if v.op == 'ite' else [v]
    for x in vs:
        if x.op == 'addr' and x.a[0] is not base and under(x.a[0], base):
            return True
        if x.op == 'addr' and x.a[0] is base:
            return True
        if x.op == 'agg':
            for _, y in x.a[1]:
                if isinstance(y, T) and self_addr(y, base):
                    return True
    return False


PUSH = {'push_back': 0, 'emplace_back': 0, 'insert': -1, 'emplace': -1, 'assign': -1, 'push_front': 0}


def loc_type(R, r, l):
    """type of the innermost named member on the path of l below the class of r"""
    names = []
    while l.op in ('fld', 'idx', 'blk') and isinstance(l.a[0], T):
        if l.op == 'fld':
            names.append(l.a[1])
        l = l.a[0]
    t = None
    for nm in reversed(names):
        x = [(rr, x) for rr, x in rfields(R, r) if x['n'] == nm] if r is not None else []
        if not x:
            break
        t = ftype(*x[0])
        r = R.P.recs.get(t.get('rec') or '')
    return t


@rule('C25', 'escape analysis of addresses and closures into the object, joined with the transfer analysis of its copy and move operations')
def c25(R):
    n = 0
    for r in librecs(R):
        if r['abs'] and not r['fs']:
            continue
        fns = [R.P.fns[m['key']] for m in r['ms'] if m.get('key') in R.P.fns and not any(m.get(k) for k in SPECIAL) and not m.get('static')]
        found = {}
        for f in fns:
            kw = {}
            if f['n'].endswith('Solve'):
                kw = {'opaque': [g['q'] for c in R.P.recs.values() if facts.strip_targs(c['q']) in (ILQR, AL) for g in R.P.fns.values() if g.get('cls') == c['key'] and g is not f]}
            try:
                en = R.run(None, fn=f, quiet=STATS, **kw)
            except (facts.ToolError, RecursionError):
                continue
            n += 1
            for e in en.events:
                l, v = None, None
                if e.kind == 'store' and e.loc is not None and e.val is not None:
                    l, v = e.loc, e.val
                elif e.kind == 'call' and e.name in PUSH and e.args and e.recv is not None:
                    l, v = e.recv, e.args[PUSH[e.name]][1]
                elif e.kind == 'call' and e.recv is not None and e.recv is not THIS and e.args and kw:
                    for a in e.args:
                        if a[1] is not None and a[1].op == 'lam':
                            l, v = e.recv, a[1]
                if v is None or l is None or not under(l, THIS) or l is THIS:
                    continue
                if not (closures_of(v, THIS) or self_addr(v, THIS)):
                    continue
                t = loc_type(R, r, l)
                if t is not None and bound_type(t):
                    continue
                top = l
                found.setdefault(root_path(l), []).append((f, e))
        if not found:
            R.ob('no stored address into itself', True, None, facts.strip_targs(r['q']))
            continue
        for kind in SPECIAL:
            c = can(R, r, kind)
            if c is None:
                R.ob('self-referencing classes are bound to their place or re-target', True, None, '%s of %s is not available' % (SPNAME[kind], r['q']))
                continue
            for path, uses in found.items():
                f0, e0 = uses[0]
                if c == 'implicit':
                    R.ob('self-referencing classes are bound to their place or re-target', False, e0,
                         '%s stores the address of its own object in %s, and the implicit %s of %s copies that address' % (f0['q'], '.'.join(path), SPNAME[kind], r['q']))
                    continue
                R.sub(retarget, r, R.P.fns[c['key']], path, uses, SPNAME[kind])
    # containers of pointers that are registered from outside (statistics): registered as member pointers or names
    R.ob('member functions searched for self references', n > 20 or None, None, '%d functions' % n)


def root_path(l):
    names = []
    while l.op in ('fld', 'idx', 'blk') and isinstance(l.a[0], T):
        if l.op == 'fld' and not str(l.a[1]).startswith('#'):
            names.append(l.a[1])
        l = l.a[0]
    return tuple(reversed(names))


def retarget(R, r, f, path, uses, what):
    en = R.run(None, fn=f, quiet=STATS)
    l, s = THIS, ARG0
    for nm in path:
        l, s = fld(l, nm), fld(s, nm)
    v = en.final.read(l)
    old = S_INIT.read(s)
    name = 'self-referencing classes are bound to their place or re-target'
    if closures_of(v, ARG0) or self_addr(v, ARG0):
        return R.ob(name, False, f, 'the %s stores an address inside its source in %s' % (what, '.'.join(path)))
    cs = [(p, x) for p, x in cases(v)] if v.op == 'ite' else [(TRUE, v)]
    for p, x in cs:
        if not contains(x, lambda y: y is old) or not sat(p):
            continue
        if p is TRUE:
            return R.ob(name, False, f, 'the %s takes over %s, which refers to the source object' % (what, '.'.join(path)))
        # taken over only when nothing can have been registered: a container that registration fills is empty
        grown = set()
        for g, e in uses:
            for caller in callers(R, g, r):
                for e2 in R.run(None, fn=caller, quiet=STATS).events:
                    if e2.kind == 'call' and e2.name in ('push_back', 'emplace_back') and e2.recv is not None and under(e2.recv, THIS) and e2.recv.op == 'fld':
                        grown.add(e2.recv.a[1])
        ok = False
        for g in sorted(grown):
            size = S_INIT.read(fld(fld(ARG0, g), '#size'))
            if implies(p, NOT(GT0(size)), assumed(en)):
                ok = True
        if not ok:
            return R.ob(name, False if not any(contains(a, lambda y: y.op in ('unk', 'mu', 'hv')) for a in atoms(p)) else None, f,
                        'when %s, the %s takes over %s, which refers to the source object' % (show(p)[:150], what, '.'.join(path)))
    return R.ob(name, True, f, '%s re-targets %s' % (what, '.'.join(path)))


def GT0(t):
    return NOT(tobool(eq(t, ZERO, True)))


def callers(R, g, r):
    """functions of the class that (directly) call g, and g itself"""
    out = [g]
    for f in R.P.fns.values():
        if f.get('cls') == r['key'] and not any(f.get(k) for k in SPECIAL) and f is not g and mentions(f, g['key']):
            out.append(f)
    return out


def nodes(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st += [v for v in x.values() if isinstance(v, (dict, list))]
        elif isinstance(x, list):
            st += [v for v in x if isinstance(v, (dict, list))]


def mentions(f, key):
    return any(isinstance(x.get('fn'), dict) and x['fn'].get('key') == key for x in nodes([f.get('b'), f.get('inits')]))


# ------------------------------------------------------------------ C26
def scalar_type(t):
    return t.get('k') in ('int', 'float', 'bool', 'enum', 'ptr', 'char') and not t.get('ref')


def uninit(v, locs):
    return contains(v, lambda x: x.op == 'undef' or x in locs)


@rule('C26', 'definite initialisation of every scalar member along every path of every constructor')
def c26(R):
    for r in librecs(R):
        sc = [x for x in r['fs'] if scalar_type(ftype(r, x))]
        if not sc:
            continue
        ctors = [m for m in r['ms'] if m.get('ctor') and not m.get('cc') and not m.get('mc')]
        user = [m for m in ctors if not m.get('impl') and not m.get('dfl') and not m.get('del')]
        for m in r['ms']:
            if m.get('ctor') and (m.get('cc') or m.get('mc')) and not m.get('impl') and not m.get('dfl') and not m.get('del'):
                user.append(m)
        bodies = [R.P.fns[m['key']] for m in user if m.get('key') in R.P.fns]
        bodies += [f for f in R.P.fns.values() if f.get('ctor') and f.get('cls') == r['key'] and not any(f is b for b in bodies)
                   and not f.get('dflt') and not f.get('impl')]
        if r['agg']:
            R.notes.append('aggregate %s: initialised by its users' % r['q'])
            R.sub(aggregate, r, sc)
            continue
        if not user or any(m.get('dfl') for m in ctors if not m.get('p')):
            for x in sc:
                R.ob('every scalar member is initialised', bool(x.get('hi')), (os.path.relpath(r['f'], facts.REPO) if r['f'].startswith(facts.REPO) else r['q'], r['q']),
                     '%s::%s has no initial value in the default constructor' % (r['q'], x['n']))
        for f in bodies:
            en = R.run(None, fn=f, quiet=STATS)
            if en.final is None:
                R.notes.append('%s never returns' % f['q'])
                continue
            for x in sc:
                l = fld(THIS, x['n'])
                v = en.final.read(l)
                bad = uninit(v, {S_INIT.read(l)})
                R.ob('every scalar member is initialised', not bad, f, 'constructor of %s leaves %s indeterminate' % (r['q'], x['n']))
            # no member is read before it has a value
            inits = {S_INIT.read(fld(THIS, x['n'])): x['n'] for x in sc}
            for rr, x in rfields(R, r):
                v = en.final.read(fld(THIS, x['n']))
                used = [nm for t, nm in inits.items() if contains(v, lambda y, t=t: y is t)]
                if used and x['n'] not in inits.values():
                    R.ob('no member is read before it has a value', False, f, '%s of %s is computed from %s, which has no value yet' % (x['n'], r['q'], ', '.join(used)))
            for e in en.events:
                for a in e.args or ():
                    if a[1] is not None:
                        used = [nm for t, nm in inits.items() if contains(a[1], lambda y, t=t: y is t)]
                        if used and e.fn is not None:
                            R.ob('no member is read before it has a value', False, e, '%s is passed to %s before it has a value' % (', '.join(used), e.name))
                            break


def aggregate(R, r, sc):
    """library functions that declare a local of an aggregate type without a value for every scalar member assign them all"""
    bare = [x for x in sc if not x.get('hi')]
    if not bare:
        return
    for f in list(R.P.fns.values()):
        if not f['f'].startswith(facts.REPO) or 'verif_driver' in f['q']:
            continue
        for d in nodes(f.get('b')):
            if d.get('k') != 'decl':
                continue
            for v in d.get('vs', []):
                if not isinstance(v, dict) or 'id' not in v or f['T'][v['t']].get('rec') != r['key'] or f['T'][v['t']].get('ref') or f['T'][v['t']].get('k') != 'rec':
                    continue
                i = v.get('i')
                if i is None or i.get('k') == 'ctor' and not i.get('as') and not i.get('zero') and not i.get('br'):
                    en = R.run(None, fn=f)
                    vals = [e for e in en.events if e.kind == 'store' and e.loc is not None]
                    for x in bare:
                        ok = any(e.loc.op == 'fld' and e.loc.a[1] == x['n'] for e in vals)
                        R.ob('every scalar member is initialised', ok, (os.path.relpath(f['f'], facts.REPO), f['q']),
                             'the local %s of type %s never gets a value for %s' % (v['n'], r['q'], x['n']))
