"""Solver options (C33) and output at the silent level (C34)."""
import effects
from rulelib import *
from rules.kpf import *
from rules.ilqr import *
from rules.ilqr2 import *
from rules.par import *
from rules.al import *
from rules.al2 import *
from rules.life import *
from rules.conc import S0
from rules.stats import const_str

OP = 'altro::SolverOptions'
ALS = 'altro::augmented_lagrangian::AugmentedLagrangianiLQR'
# the step each option governs: the function from which its use has to be reachable
GOVERNS = {
    'max_iterations_total': ((ILQR + '::IsDone', 'the stopping test of iLQR'), (ALS + '::IsDone', 'the stopping test of the constrained solver')),
    'max_iterations_outer': ((ALS + '::Solve', 'the constrained solve'),),
    'max_iterations_inner': ((ILQR + '::Solve', 'the iLQR solve'),),
    'cost_tolerance': ((ILQR + '::IsDone', 'the stopping test of iLQR'),),
    'gradient_tolerance': ((ILQR + '::IsDone', 'the stopping test of iLQR'),),
    'bp_reg_increase_factor': ((ILQR + '::BackwardPass', 'the backward pass'), (ILQR + '::ForwardPass', 'a failed line search')),
    'bp_reg_initial': ((ILQR + '::Solve', 'the iLQR solve'),),
    'bp_reg_max': ((ILQR + '::BackwardPass', 'the backward pass'),),
    'bp_reg_min': ((ILQR + '::BackwardPass', 'the backward pass'),),
    'bp_reg_enable': ((ILQR + '::BackwardPass', 'the backward pass'),),
    'bp_reg_fail_threshold': ((ILQR + '::BackwardPass', 'the backward pass'),),
    'check_forwardpass_bounds': ((ILQR + '::ForwardPass', 'the rollout'),),
    'state_max': ((ILQR + '::ForwardPass', 'the rollout'),),
    'control_max': ((ILQR + '::ForwardPass', 'the rollout'),),
    'line_search_max_iterations': ((ILQR + '::ForwardPass', 'the line search'),),
    'line_search_lower_bound': ((ILQR + '::ForwardPass', 'the line search'),),
    'line_search_upper_bound': ((ILQR + '::ForwardPass', 'the line search'),),
    'line_search_decrease_factor': ((ILQR + '::ForwardPass', 'the line search'),),
    'constraint_tolerance': ((ALS + '::IsDone', 'the stopping test of the constrained solver'),),
    'maximum_penalty': ((ALS + '::IsDone', 'the stopping test of the constrained solver'),),
    'initial_penalty': ((ALS + '::Solve', 'the constrained solve'),),
    'reset_duals': ((ALS + '::Solve', 'the constrained solve'),),
    'header_frequency': ((ALS + '::Solve', 'the constrained solve'),),
    'verbose': ((ALS + '::Solve', 'the constrained solve'), (ILQR + '::Solve', 'the iLQR solve')),
    'profiler_enable': ((ALS + '::Solve', 'the constrained solve'), (ILQR + '::Solve', 'the iLQR solve')),
    'profiler_output_to_file': ((ALS + '::Solve', 'the constrained solve'),),
    'log_directory': ((ALS + '::Solve', 'the constrained solve'),),
    'profile_filename': ((ALS + '::Solve', 'the constrained solve'),),
    'nthreads': ((ILQR + '::Solve', 'the iLQR solve'),),
    'tasks_per_thread': ((ILQR + '::Solve', 'the iLQR solve'),),
}


def callees(P, f):
    for t in list(f.get('inits') or ()) + [f.get('b')]:
        for n in effects.nodes(t):
            fn = n.get('fn') if isinstance(n.get('fn'), dict) else None
            if fn and fn.get('key'):
                yield fn['key']
                if fn.get('v'):
                    yield from P.overriders.get(fn['key'], ())


def reachable(P, f):
    seen, todo = set(), [f['key']]
    while todo:
        k = todo.pop()
        if k in seen or k not in P.fns:
            continue
        seen.add(k)
        todo += list(callees(P, P.fns[k]))
    return seen


def written(n):
    """the expression n writes to, or None"""
    if n['k'] == 'asg':
        return n['a']
    if n['k'] == 'un' and n['op'] in ('++', '--'):
        return n['a']
    if n['k'] == 'opc' and n.get('op') in effects.WRITE_OPS and n.get('as'):
        return n['as'][0]
    if n['k'] == 'mcl' and not (n.get('fn') or {}).get('cst') and (n.get('fn') or {}).get('n') not in effects.ACCESS:
        return n.get('ob')
    return None


def option(e, key):
    """the option the expression e is or is a part of"""
    d = 0
    while isinstance(e, dict) and d < 30:
        d += 1
        if e['k'] == 'mem':
            if e.get('o') == key:
                return e['n']
            e = e['b']
        elif e['k'] in ('cast', 'sub', 'un'):
            e = e.get('a')
        elif e['k'] == 'opc' and e.get('as'):
            e = e['as'][0]
        else:
            return None
    return None


@rule('C33', 'census of option reads over the call graph, write-effect analysis, and path conditions of the steps the options govern')
def c33(R):
    P = R.P
    r = P.rec(OP)
    key = r['key']
    names = [x['n'] for x in r['fs']]
    hdr = os.path.relpath(r['f'], facts.REPO)
    reads, n = {}, 0
    for k, f in sorted(P.fns.items()):
        if not f.get('b') or f.get('cls') == key and (f.get('ctor') or f['n'].startswith('operator=') or f['n'].startswith('~')):
            continue
        lib = os.path.relpath(f['f'], facts.REPO).startswith('altro/')
        wr = set()
        for x in effects.nodes(f['b']):
            t = written(x)
            if t is not None:
                o = option(t, key)
                if o is not None and lib:
                    wr.add(id(t))
                    R.ob('the library never modifies an option', False, dict(f, l=x['l']), 'writes %s' % o)
                ty = f['T'][t['t']] if isinstance(t, dict) and 't' in t else {}
                if lib and ty.get('rec') == key and f.get('cls') not in (key, ST_) and x['k'] in ('asg', 'opc'):
                    fresh = t['k'] == 'ref' and t.get('dk') == 'local' and not ty.get('ref')
                    R.ob('the library never modifies an option', None if fresh else False, dict(f, l=x['l']), 'replaces the options')
        for x in effects.nodes(f['b']):
            if x['k'] == 'mem' and x.get('o') == key and id(x) not in wr:
                reads.setdefault(x['n'], []).append((k, x))
                n += 1
    R.ob('the library never modifies an option', True, r, '')
    for o in names:
        R.ob('every option is read', o in reads, (hdr, OP + '::' + o), '%s is never read' % o)
    fs = {}
    for o in names:
        for q, what in GOVERNS.get(o, ()):
            if o not in reads:
                continue
            for f in P.find(q):
                if not f.get('b') or f['ps'] and q.endswith(('IsDone', 'Solve', 'Pass')):
                    continue
                if f['key'] not in fs:
                    fs[f['key']] = reachable(P, f)
                    R.fns |= {k for k in fs[f['key']] if k.startswith('altro')}
                R.ob('an option is read in the step it governs', any(k in fs[f['key']] for k, _ in reads[o]), f, '%s is not read in %s' % (o, what))
    R.notes.append('%d reads of %d options' % (n, len(names)))
    extra = [o for o in names if o not in GOVERNS]
    if extra:
        R.notes.append('options without a specified step: %s' % ', '.join(extra))
    R.sub(cached, P, r, key)
    optval = lambda en, o: engine.State().read(fld(opts_loc(R, en), o))
    R.sub(regularization)
    R.sub(linesearch)
    R.sub(threads)
    R.sub(penalties)
    R.sub(profiling)
    R.sub(verbosity)


ST_ = 'altro::SolverStats'


def cached(R, P, r, key):
    """no object outside the options remembers the options as they were when it was built"""
    for k, x in sorted(P.recs.items()):
        if not x['key'].startswith('altro::') or x['key'] in (key, ST_):
            continue
        for y in x['fs']:
            if ftype(x, y)['s'] == OP:
                R.ob('no object keeps its own copy of the options', False, x, y['n'])
    for k, f in sorted(P.fns.items()):
        if not f.get('ctor') or not f.get('cls', '').startswith('altro::') or f.get('cls') in (key, ST_):
            continue
        for i in f.get('inits') or ():
            for n in effects.nodes(i):
                if n['k'] == 'mem' and n.get('o') == key:
                    R.ob('options are not read when a solver is built', False, dict(f, l=n['l']), '%s is read in a constructor, later changes have no effect' % n['n'])
    R.ob('no object keeps its own copy of the options', True, r)


def opt(R, en, st, o, inst, q):
    """the live value of option o of the solver at state st"""
    l = R.loc(en, q + '::GetOptions', st=st, n=0, inst=inst)
    return st.read(fld(l, o))


def oloc(R, en, o, q, inst=I62):
    """the location of option o of the solver, as its public accessor gives it"""
    for f in R.P.find(q + '::GetOptions', 0, inst=inst):
        kind, v, s2 = en.eval_fn(f, THIS, engine.State(), ())
        if kind == 'loc':
            return fld(v, o)
    raise facts.ToolError('no accessor of the options in ' + q)


def regularization(R):
    """raising and lowering the regularization keeps it between its bounds and uses the factor"""
    P = R.P
    for nm, up_ in (('IncreaseRegularization', True), ('DecreaseRegularization', False)):
        fs = P.find(ILQR + '::' + nm, 0, inst=I62)
        if not fs:
            continue
        en = R.run(None, fn=fs[0])
        mx, mn, fac = (raw('init', oloc(R, en, o, ILQR)) for o in ('bp_reg_max', 'bp_reg_min', 'bp_reg_increase_factor'))
        rl = ilqr_loc(R, en, 'GetRegularization')
        rho0, v = raw('init', rl), en.final.read(rl)
        what = 'raised' if up_ else 'lowered'
        nf = NF(scalar=lambda t: True)
        scaled = False
        for p, x in cases(v):
            if not sat(AND(p, en.final.pc)):
                continue
            u = unresolved(x)
            R.ob('%s regularization stays below its maximum' % what, x is mx or implies(p, NOT(flt(mx, x))) or x is mn and implies(p, NOT(flt(mx, mn))) or (None if u else False), en.root, '%s under %s' % (show(x)[:150], show(p)[:200]))
            R.ob('%s regularization stays above its minimum' % what, x is mn or x is mx or implies(p, NOT(flt(x, mn))) or (None if u else False), en.root, '%s under %s' % (show(x)[:150], show(p)[:200]))
            if contains(x, lambda y: y is rho0):
                scaled = True
                R.ob('the regularization changes by the configured factor', contains(x, lambda y: y is fac) or contains(x, lambda y: y.op == 'init' and 'drho' in show(y)) or (None if u else False), en.root, show(x)[:150])
        R.ob('the regularization is scaled', scaled or (None if unresolved(v) else False), en.root, show(v)[:150])
        # direction: with a factor above one
        one = c(1)
        for p, x in cases(v):
            if not contains(x, lambda y: y is rho0) or not sat(AND(p, en.final.pc)):
                continue
            for g in (fac,):
                a = nf.eq(x, arith('*', rho0, g))
                b = nf.eq(x, arith('*', rho0, arith('/', c(1), g)))
                if a or b:
                    R.ob('regularization is %s by the factor' % what, bool(a) == up_, en.root, show(x)[:150])


def threads(R):
    """a positive number of threads is taken as it is"""
    for f in R.P.find(OP + '::NumThreads', 0):
        en = R.run(None, fn=f)
        nt = raw('init', fld(THIS, 'nthreads'))
        got = []
        for k in (1, 2, 3, 7, 8, 16, 33, 128):
            vs = {subst(x, {nt.id: c(k)}) for p, x in cases(en.ret) if sat(subst(p, {nt.id: c(k)}))} if en.ret is not None else set()
            got.append((k, cv(vs.pop()) if len(vs) == 1 else None))
        bad = [(k, g) for k, g in got if g is not None and g != k]
        R.ob('the number of threads is the configured one', False if bad else (True if all(g == k for k, g in got) else None), f, '%s threads configured give %s' % bad[0] if bad else show(en.ret)[:200] if en.ret is not None else '')


def linesearch(R):
    """every retry of the line search divides the step length by the configured factor"""
    en = forward(R)
    evs = [e for e in calls(en, 'RolloutClosedLoop')] or [e for e in calls(en) if facts.strip_targs(e.fn['q']).endswith('RolloutClosedLoop')]
    fac = raw('init', oloc(R, en, 'line_search_decrease_factor', ILQR))
    nf = NF(scalar=lambda t: True)
    n = 0
    what = 'each retry divides the step length by the configured factor'
    for e in evs:
        if not e.loops or not e.args:
            continue
        L = en.loops[e.loops[-1]]
        a = e.args[-1][1]
        if a.op != 'mu' or a.a[0] != e.loops[-1] or L.back is None:
            # not carried from one try to the next
            R.ob(what, None, e, 'step length %s' % show(a)[:150])
            continue
        n += 1
        for p, x in cases(L.back.read(a.a[-1])):
            if not sat(AND(p, L.back.pc)):
                continue
            ok = nf.eq(x, arith('/', a, fac))
            R.ob(what, True if ok else (None if any(t.op in ('hv', 'undef', 'unk') or t.op == 'mu' and t is not a and t is not (L.main or (None,))[0] for t in walk(x)) else False), e, 'becomes %s' % show(x)[:200])
    R.ob(what, n > 0 or None, en.root)


def penalties(R):
    """the initial penalty and the reset of the multipliers, at the start of a constrained solve"""
    P = R.P
    en = R.run(ALS + '::Solve', n=0, inst=I62, quiet=tuple(ALS + '::' + x for x in ('SetPenalty', 'ResetDualVariables', 'UpdateDuals', 'UpdatePenalties', 'UpdateConvergenceStatistics', 'IsDone', 'MaxViolation',
                                                                             'GetMaxViolation', 'GetMaxPenalty')) + (ILQR + '::Solve', ST_ + '::Reset') + STATS)
    ip, rd = raw('init', oloc(R, en, 'initial_penalty', ALS)), raw('init', oloc(R, en, 'reset_duals', ALS))
    base = assumed(en)
    inner = [e for e in calls(en) if facts.strip_targs(e.fn['q']) == ILQR + '::Solve']
    for nm, want, what in (('SetPenalty', flt(c(0), ip), 'the initial penalty is set exactly when it is positive'), ('ResetDualVariables', tobool(rd), 'the multipliers are reset exactly when that is enabled')):
        evs = [e for e in calls(en, nm) if facts.strip_targs(e.fn['q']) == ALS + '::' + nm]
        if not evs:
            R.ob(what, None, en.root, 'no call of %s' % nm)
            continue
        pcs = OR(*[e.pc for e in evs])
        R.ob(what, implies(pcs, want, base) and implies(AND(want, evs[0].st.pc if False else TRUE), pcs, base) and not any(e.loops for e in evs), evs[0], 'under %s' % show(pcs)[:150])
        for e in evs:
            if nm == 'SetPenalty':
                R.ob('the initial penalty is the configured one', e.args[0][1] is ip or (None if unresolved(e.args[0][1]) else False), e, show(e.args[0][1])[:100])
            if inner:
                R.ob('penalties and multipliers are set before the first subproblem', e.seq < inner[0].seq, e, nm)


def profiling(R):
    """the profiler is switched to the configured state before the first scope of a solve"""
    P = R.P
    tr = P.rec('altro::Timer')
    for q in (ILQR, ALS):
        en = R.run(q + '::Solve', n=0, inst=I62, timers=True, quiet=STATS + (ST_ + '::Reset',), opaque=(
            ILQR + '::SolveSetup', ILQR + '::Rollout', ILQR + '::Cost', ILQR + '::UpdateExpansions', ILQR + '::BackwardPass', ILQR + '::ForwardPass', ILQR + '::UpdateConvergenceStatistics', ILQR + '::IsDone',
            ALS + '::Init', ALS + '::UpdateDuals', ALS + '::UpdatePenalties', ALS + '::UpdateConvergenceStatistics', ALS + '::IsDone') + ((ILQR + '::Solve',) if q == ALS else ()))
        pe = tobool(raw('init', oloc(R, en, 'profiler_enable', q)))
        starts = [e for e in calls(en, 'Start') if facts.strip_targs(e.fn['q']) == 'altro::Timer::Start']
        if not starts:
            R.ob('profiling follows the option', None, en.root, 'no scope is opened')
            continue
        e = starts[0]
        act = R.P.fn('altro::Timer::IsActive', 0)
        k, v, s2 = en.eval_fn(act, e.recv, e.st, ())
        v = tobool(s2.read(v) if k == 'loc' else v)
        R.ob('profiling follows the option', implies(AND(e.pc, v), pe, assumed(en)) and implies(AND(e.pc, pe), v, assumed(en)) or (None if unresolved(v) else False), e, 'profiling is active if %s' % show(v)[:150])
    # where the profile goes
    en = R.run(ST_ + '::Reset', n=0)
    oo = lambda o: raw('init', fld(R.loc(en, ST_ + '::GetOptions', n=0, st=engine.State()), o))
    sets = [e for e in calls(en, 'SetOutput') if len(e.args) == 1 and not any(fr == e for fr in ())]
    top = [e for e in sets if e.fkey and not P.fns.get(e.fkey, {}).get('cls', '').endswith('Timer')]
    to = tobool(oo('profiler_output_to_file'))
    file_, std = FALSE, FALSE
    for e in top:
        v = e.args[0][1]
        if 'FILE' in str(e.fn['key']):
            std = OR(std, e.pc)
            R.ob('without a file the profile goes to standard output', v is raw('glob', 'stdout') or 'stdout' in show(v) or (None if unresolved(v) else False), e, show(v)[:80])
        else:
            file_ = OR(file_, e.pc)
            ok = contains(v, lambda y: y is oo('log_directory')) and contains(v, lambda y: y is oo('profile_filename')) and "'/'" in show(v) and show(v).index('log_directory') < show(v).index('profile_filename')
            R.ob('the profile is written to the configured file', ok or (None if unresolved(v) else False), e, show(v)[:150])
    if top:
        R.ob('the profile is written to a file exactly when that is enabled', equiv(file_, to) or (None if unresolved(file_) else False), top[0], 'to a file under %s' % show(file_)[:150])
        R.ob('without a file the profile goes to standard output', implies(NOT(to), std), top[0], 'under %s' % show(std)[:150])
    else:
        R.ob('the profile is written to a file exactly when that is enabled', None, en.root)


def verbosity(R):
    """the logger's level and header frequency are the configured ones"""
    P = R.P
    en = R.run(ST_ + '::Reset', n=0, opaque=('altro::Timer::SetOutput',))
    ol = R.loc(en, ST_ + '::GetOptions', n=0, st=engine.State())
    vb = raw('init', fld(ol, 'verbose'))
    v = R.val(en, ST_ + '::GetVerbosity')
    R.ob('the verbosity is the configured one', v is vb or (None if unresolved(v) else False), en.root, show(v)[:100])
    lg = R.loc(en, ST_ + '::GetLogger', n=0)
    rl = P.rec('altro::SolverLogger')
    # the frequency is what SetFrequency sets
    f = P.fn('altro::SolverLogger::SetFrequency', 1)
    e2 = R.run(None, fn=f)
    a0 = raw('init', raw('obj', 'arg0'))
    fl = [x['n'] for x in rl['fs'] if ftype(rl, x)['s'] == 'int' and e2.final.read(fld(THIS, x['n'])) is a0]
    if len(fl) == 1:
        fq = en.final.read(fld(lg, fl[0]))
        inner = c(P.enum('altro::LogLevel', 'kInner'))
        for p, x in cases(fq):
            if sat(AND(AND(p, en.final.pc), ilt(vb, inner))):
                R.ob('the header is repeated as often as configured', x is raw('init', fld(ol, 'header_frequency')) or (None if unresolved(x) else False), en.root, show(x)[:100])
        pr = R.run('altro::SolverLogger::Print', n=0, quiet=('altro::SolverLogger::PrintHeader', 'altro::SolverLogger::PrintData'))
        hs = [e for e in calls(pr, 'PrintHeader')]
        ds = [e for e in calls(pr, 'PrintData')]
        ct = [x['n'] for x in rl['fs'] if ftype(rl, x)['s'] == 'int' and x['n'] != fl[0]]
        if hs and len(ct) == 1:
            cl = fld(THIS, ct[0])
            c0, fr = raw('init', cl), raw('init', fld(THIS, fl[0]))
            want = [x for x in walk(hs[0].pc) if x.op == 'app' and str(x.a[0]) == 'imod']
            R.ob('the header is printed when its turn has come', bool(want) and all(contains(w, lambda y: y is c0) and contains(w, lambda y: y is fr) for w in want) or None, hs[0], show(hs[0].pc)[:100])
            for p, x in cases(pr.final.read(cl)):
                if sat(AND(p, NOT(hs[0].pc))):
                    R.ob('every printed row is counted', idiff(x, c0) == 1 or (None if unresolved(x) else False), pr.root, show(x)[:80])
                if sat(AND(p, hs[0].pc)):
                    R.ob('printing the header restarts the count', idiff(x, ONE) == 0 or idiff(x, c0) == 1 and bool(want) and None or (None if unresolved(x) else False), pr.root, show(x)[:80])
        R.ob('printing a row prints the data', bool(ds) and always(pr, ds[0]) or None, ds[0] if ds else pr.root)
    en = R.run(ILQR + '::SolveSetup', n=0, inst=I62)
    v = R.val(en, ST_ + '::GetVerbosity', this=R.loc(en, ILQR + '::GetStats', n=0, inst=I62))
    vb = raw('init', oloc(R, en, 'verbose', ILQR))
    R.ob('the verbosity is the configured one', v is vb or (None if unresolved(v) else False), en.root, show(v)[:100])


# ================================================================ C34
LOGGER = 'altro::SolverLogger'
ENTRY = 'altro::LogEntry'
TIMER = 'altro::Timer'


def print_sites(E, f):
    """the nodes of f's own body that write to a stream other than a local one"""
    loc = E.locals(f)
    for t in list(f.get('inits') or ()) + [f.get('b')]:
        for n in effects.nodes(t):
            if n['k'] not in ('cal', 'mcl', 'opc') or not isinstance(n.get('fn'), dict):
                continue
            nm = n['fn'].get('n', '')
            recv = n.get('ob') if n['k'] == 'mcl' else (n['as'][0] if n['k'] == 'opc' and n.get('as') else None)
            if nm in effects.PRINTS:
                if recv is not None and E.root(f, effects.leftmost(recv), loc) == 'local':
                    continue
                yield n
            elif nm == 'operator<<' and n.get('as') and E.is_stream(f, effects.leftmost(n['as'][0])) and E.root(f, effects.leftmost(n['as'][0]), loc) != 'local':
                yield n
            elif nm in ('write', 'put', 'flush') and recv is not None and E.is_stream(f, recv) and E.root(f, recv, loc) != 'local':
                yield n


def stream_param(f):
    """f writes where its caller tells it to"""
    for p in f['ps']:
        s = f['T'][p['t']].get('s', '')
        if 'FILE' in s or 'ostream' in s:
            return True
    return False


def explicit(f):
    n = f['n'].split('<')[0]
    if f.get('cls') in (LOGGER, ST_):       # these print at their own level, and nothing at the silent one
        return False
    return n.startswith('Print') or n in ('operator<<',) or stream_param(f)


def helper(f):
    """not part of the interface: a private member, or a free function of a source file"""
    return f.get('acc') in (1, 2) or f.get('acc') == 3 and not f.get('cls') and f['f'].endswith('.cpp')


def flags_of(f):
    """values of the boolean parameters of f"""
    return [(i, tobool(raw('init', raw('obj', 'arg%d' % i)))) for i, p in enumerate(f['ps']) if f['T'][p['t']].get('k') == 'bool']


def guard_of(R, en, f, pc):
    """True when pc cannot hold at the silent level (or while profiling is off), or only after a failure; False when it can; None if unknown"""
    P = R.P
    lv = c(P.enum('altro::LogLevel', 'kSilent'))
    q = f.get('cls')
    if q == LOGGER:
        l = R.loc(en, LOGGER + '::GetLevel', st=engine.State()) if False else None
        k, v, s2 = en.eval_fn(P.fn(LOGGER + '::GetLevel', 0), THIS, engine.State(), ())
        v = s2.read(v) if k == 'loc' else v
        return not sat(AND(pc, tobool(eq(v, lv, True))))
    if q == ENTRY:
        k, v, s2 = en.eval_fn(P.fn(ENTRY + '::GetLevel', 0), THIS, engine.State(), ())
        v = s2.read(v) if k == 'loc' else v
        for i, p in enumerate(f['ps']):
            if 'LogLevel' in f['T'][p['t']].get('s', ''):
                return not sat(AND(pc, ilt(raw('init', raw('obj', 'arg%d' % i)), v)))
        return False
    if q == TIMER and not f['n'].startswith('Print'):
        k, v, s2 = en.eval_fn(P.fn(TIMER + '::IsActive', 0), THIS, engine.State(), ())
        v = s2.read(v) if k == 'loc' else v
        return implies(pc, tobool(v))
    # a failure: the wait for a task timed out
    for x in walk(pc):
        if 'wait_for' in show(x) or 'wait_until' in show(x):
            return True
    for st in ('GetStats', 'GetVerbosity'):
        pass
    if q and (q.startswith(ILQR) or q.startswith(ALS)):
        k, sl, s2 = en.eval_fn(P.fn((ILQR if q.startswith(ILQR) else ALS) + '::GetStats', 0), THIS, engine.State(), ())
        if k == 'loc':
            v = R.val(en, ST_ + '::GetVerbosity', this=sl, st=engine.State())
            return not sat(AND(pc, tobool(eq(v, lv, True))))
    if q == ST_:
        v = R.val(en, ST_ + '::GetVerbosity', this=THIS, st=engine.State())
        return not sat(AND(pc, tobool(eq(v, lv, True))))
    return False


@rule('C34', 'interprocedural output-effect analysis: every print is dominated by the level, the profiler switch, a caller-supplied flag or a failure')
def c34(R):
    P = R.P
    E = effects.Effects(P)
    lib = {k: f for k, f in P.fns.items() if f.get('b') and os.path.relpath(f['f'], facts.REPO).startswith('altro/') and not f['f'].endswith('main.cpp')}
    sites = {k: list(print_sites(E, f)) for k, f in lib.items()}
    loud = {}                 # printing functions: key -> indices of the flags that switch them on; None = always
    n = 0
    todo = []
    for k, f in sorted(lib.items()):
        if not sites[k]:
            continue
        n += len(sites[k])
        R.fns.add(k)
        en = attempt(R, f, ())
        lines = {x['l'] for x in sites[k]}
        evs = [e for e in en.events if e.kind == 'call' and e.fkey == k and e.line in lines and (e.name in effects.PRINTS or 'operator<<' in (e.name or '') or e.name in ('write', 'put', 'flush'))]
        seen = {e.line for e in evs}
        for e in evs:
            R.sub(classify, en, f, e.pc, e, loud, 'prints')
        for x in sites[k]:
            if x['l'] not in seen and explicit(f):
                loud.setdefault(k, set()).add(None)
            elif x['l'] not in seen:
                R.ob('output depends on the verbosity', None, dict(f, l=x['l']), 'the path to this print was not followed')
    # callers
    work = sorted(loud)
    done = set()
    while work:
        g = work.pop(0)
        if g in done:
            continue
        done.add(g)
        gf = lib[g]
        for k, f in sorted(lib.items()):
            if k == g or not calls_key(P, f, g):
                continue
            q = gf['q'].split('<')[0] if '<lambda' not in gf['q'] else gf['q']
            en = attempt(R, f, (facts.strip_targs(gf['q']),))
            evs = [e for e in en.events if e.kind == 'call' and (e.fn or {}).get('key') == g and e.fkey == k]
            if not evs and explicit(f):
                if None not in loud.setdefault(k, set()):
                    loud[k].add(None)
                    work.append(k)
            for e in evs:
                for i in sorted(loud[g], key=str):
                    pc = e.pc
                    if i is not None:
                        if i >= len(e.args) or e.args[i][1] is None:
                            continue
                        pc = AND(pc, tobool(e.args[i][1]))
                    if not sat(pc):
                        R.ob('output depends on the verbosity', True, e)
                        continue
                    before = set(loud.get(k, ()))
                    R.sub(classify, en, f, pc, e, loud, 'calls %s, which prints' % gf['q'].split('::')[-1])
                    if set(loud.get(k, ())) - before:
                        done.discard(k)
                        work.append(k)
    R.notes.append('%d print statements in %d functions' % (n, sum(1 for k in sites if sites[k])))
    R.sub(entries, P)


LOOPS = ('for', 'rfor', 'while', 'do')


def attempt(R, f, quiet):
    """f with the calls of quiet, and of the callees that loop, left in place"""
    P = R.P
    more = {facts.strip_targs(P.fns[k]['q']) for k in callees(P, f) if k in P.fns and P.fns[k].get('b') and any(n['k'] in LOOPS for j in reachable(P, P.fns[k]) for n in effects.nodes(P.fns[j].get('b')))}
    return R.run(None, fn=f, timers=True, quiet=tuple(quiet) + tuple(sorted(more)))


def calls_key(P, f, g):
    return any(k == g for k in callees(P, f))


def classify(R, en, f, pc, at, loud, what):
    if not sat(pc):
        return
    g = guard_of(R, en, f, pc)
    if g:
        R.ob('output depends on the verbosity', True, at)
        return
    if en.final is None or not sat(AND(pc, en.final.pc)):        # followed by abort() or a throw: a failure diagnostic
        R.ob('output depends on the verbosity', True, at)
        return
    if explicit(f):
        loud.setdefault(f['key'], set()).add(None)
        R.ob('output depends on the verbosity', True, at)
        return
    for i, v in flags_of(f):
        if implies(pc, v):
            loud.setdefault(f['key'], set()).add(i)
            R.ob('output depends on the verbosity', True, at)
            return
    if helper(f) and any(calls_key(R.P, h, f['key']) for h in R.P.fns.values() if h['key'] != f['key'] and h.get('b')):
        loud.setdefault(f['key'], set()).add(None)              # judged at its callers
        return
    R.ob('output depends on the verbosity', False, at, '%s %s whatever the verbosity, under %s' % (f['q'].split('::')[-1], what, show(pc)[:150]))


def reduce_or(pcs):
    r = FALSE
    for p in pcs:
        r = OR(r, p)
    return r


def entries(R, P):
    """the logger hands its own level to the entries, and an entry is active from its own level on"""
    f = P.fn(ENTRY + '::IsActive', 1)
    en = R.run(None, fn=f)
    k, v, s2 = en.eval_fn(P.fn(ENTRY + '::GetLevel', 0), THIS, engine.State(), ())
    v = s2.read(v) if k == 'loc' else v
    want = NOT(ilt(raw('init', raw('obj', 'arg0')), v))
    R.ob('an entry is active exactly from its own level on', equiv(tobool(en.ret), want) or (None if unresolved(en.ret) else False), f, show(en.ret)[:100])
    for k, g in sorted(P.fns.items()):
        if g.get('cls') != ENTRY or not g.get('b') or len(g['ps']) < 1 or 'LogLevel' not in g['T'][g['ps'][0]['t']].get('s', '') or not g['n'].startswith('Print'):
            continue
        en = R.run(None, fn=g)
        pcs = [e.pc for e in en.events if e.kind == 'call' and e.fkey == k and e.name in effects.PRINTS]
        k2, lv, s2 = en.eval_fn(P.fn(ENTRY + '::GetLevel', 0), THIS, engine.State(), ())
        lv = s2.read(lv) if k2 == 'loc' else lv
        want = NOT(ilt(raw('init', raw('obj', 'arg0')), lv))
        got = reduce_or(pcs)
        R.ob('an entry prints exactly when it is active', equiv(got, want) or (None if unresolved(got) else False), g, show(got)[:100])
    n = 0
    for k, g in sorted(P.fns.items()):
        if g.get('cls') != LOGGER or not g.get('b'):
            continue
        en = R.run(None, fn=g)
        k2, lv, s2 = en.eval_fn(P.fn(LOGGER + '::GetLevel', 0), THIS, engine.State(), ())
        lv = s2.read(lv) if k2 == 'loc' else lv
        for e in en.events:
            if e.kind == 'call' and e.fkey == k and (e.fn or {}).get('cls') == ENTRY and e.name in ('Print', 'PrintHeader', 'IsActive') and e.args:
                n += 1
                a = e.args[0][1]
                R.ob('entries are shown at the level of the logger', a is lv or (None if a is None or unresolved(a) else False), e, show(a)[:80] if a is not None else '')
    R.notes.append('%d uses of entries by the logger' % n)
