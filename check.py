#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property from /repo's current sources."""
import argparse, json, os, re, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vstat'))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)
import facts, rulelib
import rules_index


def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) rule="([^"]*)" file=(\S+) function=(\S+) :: (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def analyse(fn, R):
    R.fail = None
    try:
        fn(R)
    except rulelib.Removed as e:
        R.ob(e.name, False, e.fn, e.detail)
    except Exception as e:
        if os.environ.get('VSTAT_TRACE'):
            traceback.print_exc()
        R.fail = e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--show', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.pid
    fn, technique = rulelib.REG[pid]
    P = facts.load(perf=getattr(fn, 'perf', False))
    R = rulelib.R(pid, P)
    R.tier = a.tier
    R.fail = None
    lim = threading.Thread(target=analyse, args=(fn, R), daemon=True)
    lim.start()
    lim.join(float(os.environ.get('VSTAT_LIMIT', '720')))
    if lim.is_alive():
        R.ob('analysis incomplete: time limit', None, None, 'stopped after %d s' % (time.time() - t0))
    if R.fail is not None:
        if not [o for o in R.obs if o['status'] in ('ok', 'violated')]:
            raise R.fail
        R.ob('analysis incomplete', None, None, '%s: %s' % (type(R.fail).__name__, str(R.fail)[:300]))
    R.obs = list(R.obs)
    viol = [o for o in R.obs if o['status'] == 'violated']
    und = [o for o in R.obs if o['status'] == 'undecided']
    if not R.obs:
        raise facts.ToolError('no obligations were generated for ' + pid)
    kn = known(pid)
    fresh = []
    for o in viol:
        k = [x for x in kn if x[0] == o['rule'] and x[1] == o['file'] and x[2] == o['function']]
        if k:
            o['status'] = 'known'
            o['known'] = k[0][3]
        else:
            fresh.append(o)
    for w in sorted({o['known'] for o in viol if o['status'] == 'known'}):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    st = {'ok': 0, 'violated': 0, 'undecided': 0, 'known': 0}
    rules = {}
    for o in R.obs:
        st[o['status']] += 1
        rules[o['rule']] = rules.get(o['rule'], 0) + 1
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of /repo\'s current sources (clang syntax trees of every library and example '
                           'translation unit plus explicit template instantiations). Rule: %s. Each obligation below is one '
                           'instance of the rule at a call site, store, path condition or formula; all paths through the '
                           'listed functions are covered by joined (gated) values, loops by fixpoint.' % technique,
            'rule': technique,
            'functions_in_program': len(P.fns), 'functions_analysed': len(R.fns),
            'functions': sorted(R.fns)[:400],
            'events_analysed': R.nev, 'loops_solved': R.nloops, 'sites': len(R.sites),
            'obligations': len(R.obs), 'obligations_ok': st['ok'], 'obligations_violated': st['violated'],
            'obligations_known': st['known'], 'obligations_undecided': st['undecided'],
            'rules': rules,
            'undecided': [{k: o[k] for k in ('rule', 'file', 'line', 'function', 'detail')} for o in und][:50],
            'analysis_notes': sorted(set(R.notes))[:50],
        },
        'assumptions': ['assertion macros stop the program when their condition is false',
                        'user callbacks behind virtual calls write only their output arguments',
                        'no aliasing between distinct objects reachable only through distinct owning pointers'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    rp = os.path.join(edir, '..', 'build', 'replay')
    os.makedirs(rp, exist_ok=True)
    if a.show:
        for o in R.obs:
            print('%-9s %-45s %s:%s %s' % (o['status'], o['rule'], o['file'], o['line'], o['detail'][:600] if o['status'] != 'ok' else ''))
        for n in sorted(set(R.notes)):
            print('note', n)
    path = None
    if fresh:
        path = os.path.join(HERE, 'build', 'replay', pid + '.json')
        json.dump({'property': pid, 'violations': fresh, 'replay': 'python3 %s/check.py %s --show' % (HERE, pid)}, open(path, 'w'), indent=1)
        ev['coverage']['violations'] = [{k: o[k] for k in ('rule', 'file', 'line', 'function', 'detail')} for o in fresh]
    json.dump(ev, open(os.path.join(edir, pid + '.json'), 'w'), indent=1)
    for o in fresh:
        print('  %s:%s in %s: rule "%s" broken: %s' % (o['file'], o['line'], o['function'], o['rule'], o['detail'][:1500]))
    if fresh:
        print('VIOLATION property=%s replay=%s' % (pid, path))
    print('%s: %d obligations, %d ok, %d undecided, %d known, %d violated; %d functions, %.1f s' % (
        pid, len(R.obs), st['ok'], st['undecided'], st['known'], len(fresh), len(R.fns), time.time() - t0))
    return 1 if fresh else 0


def entry():
    global rc
    try:
        rc = main()
    except facts.ToolError as e:
        print('ANALYSIS FAILED: %s' % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2


rc = 2
th = threading.Thread(target=entry)
th.start()
th.join()
sys.stdout.flush()
os._exit(rc)
