"""Effects, options, output and other cross-cutting rules."""
import effects
from rulelib import *
from rules.kpf import *
from rules.ilqr import *
from rules.ilqr2 import *
from rules.par import *
from rules.al import *
from rules.al2 import *
from rules.life import *


def asserts_in(f):
    """(call node) of every library assertion in the body of f"""
    for t in list(f.get('inits') or ()) + [f.get('b')]:
        for n in effects.nodes(t):
            if n['k'] == 'cal' and (n.get('fn') or {}).get('q') == 'altro::utils::AssertMsg':
                yield n


def inlib(f):
    p = os.path.relpath(f['f'], facts.REPO)
    return p.startswith(('altro/', 'examples/', 'perf/'))


def is_null_stmt(n):
    if n is None or n.get('k') == 'null':
        return True
    if n.get('k') == 'expr' and isinstance(n.get('e'), dict) and n['e'].get('k') == 'cal' and \
            (n['e'].get('fn') or {}).get('q') == 'altro::utils::AssertMsg':
        return True
    if n.get('k') == 'blk':
        return all(is_null_stmt(x) for x in n['b'])
    return False


def canon(f, n, ids):
    """the tree without positions, with types by name, identifiers numbered by first use, assertions and empty statements dropped"""
    if isinstance(n, dict):
        if is_null_stmt(n):
            return None
        if n.get('k') == 'blk':
            b = [canon(f, x, ids) for x in n['b'] if not is_null_stmt(x)]
            return ('blk', tuple(b))
        out = []
        for k in sorted(n):
            v = n[k]
            if k in ('l', 'c', 'e') and isinstance(v, int):
                continue
            if k in ('t', 'rt', 'ct', 'at', 'base') and isinstance(v, int):
                out.append((k, f['T'][v].get('s')))
            elif k == 'p' and isinstance(v, list) and all(isinstance(x, int) for x in v):
                out.append((k, tuple(f['T'][x].get('s') for x in v)))
            elif k == 'id' and isinstance(v, int):
                out.append((k, ids.setdefault(v, len(ids)) if ids is not None else 0))
            else:
                out.append((k, canon(f, v, ids)))
        return tuple(out)
    if isinstance(n, list):
        return tuple(canon(f, x, ids) for x in n)
    return n


@rule('C28', 'static effect analysis of every assertion operand and comparison of the debug and NDEBUG programs')
def c28(R):
    P = R.P
    E = effects.Effects(P)
    nsite = set()
    am = P.fn('altro::utils::AssertMsg')
    for k, f in sorted(P.fns.items()):
        if not inlib(f):
            continue
        for n in asserts_in(f):
            R.fns.add(k)
            at = dict(f, l=n['l'])
            bad = [e for i in (0, 1) for e in E.of(f, n['as'][i], loc={})]
            w = [e for e in bad if e[0] in ('write', 'print', 'throw')]
            u = [e for e in bad if e[0] == 'unknown']
            if w and all(e[0] == 'print' for e in w) and not u:
                ok = only_failing(R, f, n['as'][0])
                R.ob('the operands of an assertion only read state', ok, at, '; '.join(sorted({d for _, d, _ in w})))
                continue
            nsite.add((f['f'], n['l']))
            R.ob('the operands of an assertion only read state', False if w else None if u else True, at,
                 '; '.join(sorted({d for _, d, _ in (w or u)})))
    R.notes.append('%d assertion sites' % len(nsite))
    # the assertion itself does nothing when its condition holds
    en = R.run(None, fn=am)
    cond = S0.read(raw('obj', 'arg0'))
    for ev in en.events:
        if ev.kind in ('call', 'store', 'new'):
            R.ob('an assertion whose condition holds does nothing', not sat(AND(ev.pc, cond)), ev, ev.name or 'store')
    # the program without assertions
    D = facts.load(flags=('-DNDEBUG',))
    E2 = effects.Effects(D)
    same = 0
    for k, f in sorted(P.fns.items()):
        if not inlib(f) or facts.strip_targs(f['q']) in ('altro::utils::AssertionsActive', 'altro::utils::AssertMsg'):
            continue
        g = D.fns.get(k)
        if g is None:
            continue        # used by assertions only
        same += 1
        if whole(f) == whole(g):
            R.ob('with assertions disabled the function computes the same', True, f)
            continue
        # code that only prepares an assertion may differ: what is written, printed and returned may not
        ok = acts(E, f) == acts(E2, g)
        R.ob('with assertions disabled the function computes the same', None if ok else False, f,
             'the debug and the NDEBUG program differ by more than assertions')
    R.notes.append('%d functions compared' % same)


def whole(f):
    ids = {}
    return (tuple(ids.setdefault(p['id'], len(ids)) for p in f['ps']), canon(f, f.get('inits'), ids), canon(f, f.get('b'), ids))


def acts(E, f):
    """what the function writes, prints, throws and returns, in order"""
    out = [canon(f, n, None) for k, _, n in E.of(f, list(f.get('inits') or ()) + [f.get('b')], ctor=bool(f.get('ctor')))]
    return out + [canon(f, n, None) for n in effects.nodes(f.get('b')) if n['k'] in ('ret', 'brk', 'cont')]


def only_failing(R, f, node):
    """every effect of the checking function called by an assertion happens only when it returns false"""
    while node.get('k') == 'cast':
        node = node['a']
    fn = node.get('fn') or {}
    g = R.P.fns.get(fn.get('key'))
    if node.get('k') not in ('mcl', 'cal') or g is None:
        return None
    E = effects.Effects(R.P)
    if any(k in ('write', 'throw') for k, _, _ in E.of_fn(g['key'])):
        return False
    try:
        def setup(en, fr):
            for i, a in enumerate(node.get('as') or ()):
                if isinstance(a, dict) and 'cv' in a or a.get('k') == 'int':
                    v = a.get('cv', a.get('v'))
                    b = g['T'][g['ps'][i]['t']]['k'] == 'bool'
                    if isinstance(v, (bool, int)):
                        en.st.write(raw('obj', 'arg%d' % i), (TRUE if v else FALSE) if b else num(int(v)))
        en = R.run(None, fn=g, setup=setup)
    except Exception:
        return None
    if en.ret is None:
        return None
    ok = True
    for ev in en.events:
        if ev.kind == 'call' and (ev.name in effects.PRINTS or ev.name == 'operator<<'):
            # reaching the output means the function does not return true
            if sat(AND(ev.pc, tobool(en.ret))):
                if not ev.loops or always_all(en, ev):
                    return False
                ok = None
    return ok
