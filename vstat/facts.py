"""Builds the extractor when needed, runs it over /repo's current sources and merges the facts."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
EXTR = os.path.join(VERIF, 'extractor')
FLAGS = ['-std=gnu++14', '-DFMT_DEPRECATED_OSTREAM', '-I' + REPO, '-resource-dir=/usr/lib/llvm-18/lib/clang/18', '-w']


class ToolError(Exception):
    """the analysis could not be carried out (neither a pass nor a violation)"""


def tool():
    src = os.path.join(EXTR, 'facts.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'facts-' + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + '.tmp%d' % os.getpid()
        cmd = ['clang++', '-std=c++17', '-O0', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
               '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
               '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM-18.so']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise ToolError('extractor does not build: ' + r.stderr[-2000:])
        os.replace(tmp, exe)
    return exe


def list_sources():
    """(headers, sources) of the library, examples and perf, relative to REPO"""
    hs, cs = [], []
    for top in ('altro', 'examples', 'perf'):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(d, f), REPO)
                if f.endswith('.hpp') or f.endswith('.h'):
                    hs.append(p)
                elif f.endswith('.cpp'):
                    cs.append(p)
    return sorted(hs), sorted(cs)


def driver_text(part):
    hs, _ = list_sources()
    inc = []
    for h in hs:
        if h.startswith('perf/'):
            continue
        txt = open(os.path.join(REPO, h), errors='replace').read()
        if '#pragma once' in txt or re.search(r'#ifndef\s+\w+\s*\n\s*#define', txt) or h.endswith('benchmarking.hpp'):
            inc.append('#include "%s"' % h)
    return '\n'.join(inc) + '\n' + open(os.path.join(EXTR, part)).read()


def nontrivial(src):
    """a source file that holds more than includes"""
    txt = open(os.path.join(REPO, src), errors='replace').read()
    txt = re.sub(r'//[^\n]*', '', txt)
    txt = re.sub(r'/\*.*?\*/', '', txt, flags=re.S)
    txt = re.sub(r'^\s*#\s*include[^\n]*$', '', txt, flags=re.M)
    return bool(txt.strip())


def run_extractor(parts, flags=()):
    """parts: list of driver part names and/or repo-relative sources.  Returns list of json tops."""
    exe = tool()
    tmp = tempfile.mkdtemp(prefix='vstat')
    roots = ','.join(os.path.join(REPO, d) + '/' for d in ('altro', 'examples', 'perf')) + ',' + tmp + '/'
    try:
        jobs = []
        for p in parts:
            out = os.path.join(tmp, re.sub(r'\W', '_', p) + '.json')
            extra = []
            if p.startswith('driver'):
                src = os.path.join(tmp, p)
                open(src, 'w').write(driver_text(p))
            else:
                src = os.path.join(REPO, p)
                if p.startswith('perf/'):
                    extra = ['-DLOGDIR="/tmp"', '-DLOCAL_LOG_DIR="/tmp"']
            jobs.append((p, [exe, out, roots, src, '--'] + FLAGS + extra + list(flags), out))

        def go(j):
            r = subprocess.run(j[1], capture_output=True, text=True)
            if r.returncode or not os.path.exists(j[2]):
                raise ToolError('cannot parse %s:\n%s' % (j[0], r.stderr[-3000:]))
            return json.load(open(j[2]))
        with ThreadPoolExecutor(8) as ex:
            return list(zip([j[0] for j in jobs], ex.map(go, jobs)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def strip_targs(q):
    if 'operator' in q:
        h, _, t = q.rpartition('::operator')
        if _:
            return strip_targs(h) + _ + t
        return q
    out, d = [], 0
    for c in q:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out)


class Prog:
    def __init__(self, tops):
        self.fns, self.recs, self.enums = {}, {}, {}
        self.files = set()
        self.units = [n for n, _ in tops]
        for tu, (name, top) in enumerate(tops):
            types = top['types']
            for t in types:
                t['_'] = 1
            for f in top['fns']:
                k = f['key']
                if k not in self.fns:
                    f['T'] = types
                    f['tu'] = tu
                    self.fns[k] = f
            for r in top['recs']:
                if r['key'] not in self.recs:
                    r['T'] = types
                    r['tu'] = tu
                    self.recs[r['key']] = r
            for e in top['enums']:
                self.enums[e['q']] = {v['n']: v['v'] for v in e['vs']}
            self.files.update(top['files'])
        self.overriders = {}
        for r in self.recs.values():
            for m in r['ms']:
                for o in m.get('ov') or []:
                    self.overriders.setdefault(o, set()).add(m['key'])
        self.derived = {}
        for r in self.recs.values():
            for b in r['bs']:
                self.derived.setdefault(b, set()).add(r['key'])
        self.by_q = {}
        for f in self.fns.values():
            f['q'] = strip_targs(f['q'])
            self.by_q.setdefault(f['q'], []).append(f)

    # ---- lookup helpers
    def find(self, q, n=None, pred=None, inst=None):
        """functions with qualified name q (without template arguments)"""
        out = [f for f in self.by_q.get(q, []) if (n is None or len(f['ps']) == n)
               and (inst is None or inst in f.get('cls', f['key'])) and (pred is None or pred(f))]
        return out

    def fn(self, q, n=None, pred=None, inst=None):
        out = self.find(q, n, pred, inst)
        if not out:
            raise ToolError('anchor not found: %s%s' % (q, '' if n is None else '/%d' % n))
        return sorted(out, key=lambda f: f['key'])[0]

    def rec(self, q, inst=None):
        out = [r for r in self.recs.values() if strip_targs(r['q']) == q and (inst is None or inst in r['key'])]
        if not out:
            raise ToolError('record not found: ' + q)
        return sorted(out, key=lambda r: r['key'])[0]

    def enum(self, q, n):
        try:
            return self.enums[q][n]
        except KeyError:
            raise ToolError('enumerator not found: %s::%s' % (q, n))

    def loc(self, f):
        return '%s:%s' % (os.path.relpath(f['f'], REPO), f['l'])


_cache = {}
LIB_DRIVERS = ['driver_core.cpp', 'driver_misc.cpp']


def load(perf=False, drivers=None, flags=()):
    drivers = drivers or LIB_DRIVERS
    _, cs = list_sources()
    parts = list(drivers)
    for s in cs:
        if s.startswith('perf/') and not perf:
            continue
        if s.endswith('main.cpp'):
            continue
        if nontrivial(s):
            parts.append(s)
    key = tuple(parts) + tuple(flags)
    if os.environ.get('VSTAT_CACHE'):
        # developer convenience only: reuse facts keyed by the content of everything parsed
        h = hashlib.sha256()
        hs, cs2 = list_sources()
        for p in hs + cs2:
            h.update(p.encode()); h.update(open(os.path.join(REPO, p), 'rb').read())
        for p in sorted(os.listdir(EXTR)):
            h.update(open(os.path.join(EXTR, p), 'rb').read())
        h.update(repr((parts, flags) if flags else parts).encode() + REPO.encode())
        import pickle
        fn = os.path.join(os.environ['VSTAT_CACHE'], h.hexdigest() + '.pkl')
        if os.path.exists(fn):
            return pickle.load(open(fn, 'rb'))
        p = Prog(run_extractor(parts, flags))
        pickle.dump(p, open(fn, 'wb'))
        return p
    if key not in _cache:
        _cache[key] = Prog(run_extractor(parts, flags))
    return _cache[key]
