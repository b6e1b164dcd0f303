"""Syntactic, interprocedural effects of expressions and functions: writes to non-local objects, output, unknown callees."""
import facts

PURE_STD = {'format', 'abs', 'fabs', 'min', 'max', 'sqrt', 'pow', 'exp', 'log', 'sin', 'cos', 'tan', 'isnan', 'isfinite', 'isinf', 'to_string',
            'begin', 'end', 'cbegin', 'cend', 'distance', 'accumulate', 'all_of', 'any_of', 'none_of', 'find', 'find_if', 'count', 'count_if',
            'equal', 'is_sorted', 'get', 'forward', 'operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=',
            'operator+', 'operator-', 'operator*', 'operator/', 'make_shared', 'make_unique', 'make_pair', 'make_tuple', 'tie',
            'static_pointer_cast', 'dynamic_pointer_cast', 'addressof', 'next', 'prev', 'size', 'floor', 'ceil', 'round', 'signbit',
            'max_element', 'min_element', 'lower_bound', 'upper_bound', 'binary_search', 'adjacent_find', 'strcmp', 'strlen', 'now',
            'dummy_precision', 'epsilon', 'infinity', 'lowest', 'quiet_NaN', 'mem_fn', 'ref', 'cref', 'arg', 'make_format_args', 'vformat'}
PRINTS = {'print', 'printf', 'fprintf', 'puts', 'fputs', 'putchar', 'putc', 'fputc', 'vprint', 'perror', 'fwrite', 'println'}
ACCESS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size', 'front', 'back', 'at', 'get', 'data', 'operator[]', 'operator()', 'operator*',
          'operator->', 'head', 'tail', 'segment', 'block', 'col', 'row', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner',
          'bottomRightCorner', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'transpose', 'array', 'matrix', 'derived', 'diagonal',
          'find', 'noalias', 'cast', 'str', 'coeff', 'coeffRef', 'template lpNorm', 'norm', 'squaredNorm', 'sum', 'maxCoeff', 'minCoeff',
          'key_comp', 'lower_bound', 'upper_bound', 'count', 'empty', 'c_str', 'length', 'rows', 'cols', 'value', 'load', 'eval', 'first', 'second',
          'cwiseAbs', 'asDiagonal', 'rdbuf', 'lower', 'reverse', 'replicate', 'middleRows', 'middleCols', 'real', 'unaryExpr', 'triangularView', 'selfadjointView',
          'conjugate', 'adjoint', 'nestedExpression', 'solve', 'info', 'matrixL', 'vectorD', 'isApprox', 'cwiseProduct', 'cwiseMin', 'cwiseMax', 'lazyProduct', 'dot'}
WRITE_OPS = {'=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '|=', '&=', '^=', '++', '--'}
# calls that return the object they are applied to, or a part of it
THROUGH = ACCESS


def nodes(n):
    if isinstance(n, dict):
        if 'k' in n:
            yield n
        for k, v in n.items():
            if k not in ('T', 'fn'):
                yield from nodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from nodes(v)


class Effects:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    # ------------------------------------------------------------------ helpers
    def is_stream(self, f, e):
        t = f['T'][e['t']] if isinstance(e, dict) and 't' in e else {}
        s = t.get('s', '')
        return 'basic_ostream' in s or 'std::ostream' in s or 'ofstream' in s or 'iostream' in s

    def locals(self, f):
        """ids of the variables that live in the function's own frame"""
        out = {}
        for i, p in enumerate(f.get('ps', ())):
            t = f['T'][p['t']]
            out[p['id']] = ('ref' if t.get('k') in ('ref', 'lref', 'rref') or t.get('ref') or t.get('s', '').endswith('&') else
                            'ptr' if t.get('k') == 'ptr' else 'own', None)
        for n in nodes(f.get('b')):
            if n['k'] in ('decl', 'rfor', 'while', 'if'):
                for v in decls(n):
                    t = f['T'][v['t']] if 't' in v else {}
                    s = t.get('s', '')
                    out[v['id']] = ('ref' if t.get('ref') or t.get('k') in ('ref', 'lref', 'rref') or s.endswith('&') else
                                    'ptr' if t.get('k') == 'ptr' else 'static' if v.get('static') else 'own', v.get('i'))
        return out

    def root(self, f, e, loc, depth=0):
        """'local' when the object e denotes lives in the function's frame, otherwise a description"""
        if depth > 30 or not isinstance(e, dict):
            return '?'
        k = e['k']
        if k == 'ref':
            v = loc.get(e.get('id'))
            if v is None:
                return 'global ' + e.get('n', '?') if e.get('dk') in ('glob', 'static', 'mem', None) else e.get('n', '?')
            if v[0] == 'own':
                return 'local'
            if v[0] == 'static':
                return 'static ' + e.get('n', '?')
            if v[0] == 'ref' and v[1] is not None:
                return self.root(f, v[1], loc, depth + 1)
            return 'object behind ' + e.get('n', '?')
        if k == 'this':
            return 'this'
        if k == 'mem':
            if e.get('ar'):
                b = self.root(f, e['b'], loc, depth + 1) if isinstance(e.get('b'), dict) else '?'
                return 'this' if b == 'this' else '%s->%s' % (b, e.get('n'))
            return self.root(f, e['b'], loc, depth + 1)
        if k in ('cast', 'unk') and isinstance(e.get('a'), dict):
            return self.root(f, e['a'], loc, depth + 1)
        if k == 'sub':
            return self.root(f, e['a'], loc, depth + 1)
        if k == 'un' and e['op'] == '*':
            r = self.root(f, e['a'], loc, depth + 1)
            return 'object behind a pointer' if r == 'local' else r
        if k == 'un' and e['op'] in ('++', '--', '&'):
            return self.root(f, e['a'], loc, depth + 1)
        if k == 'asg':
            return self.root(f, e['a'], loc, depth + 1)
        if k == 'opc' and e.get('as'):
            if e.get('op') in ('->', '*'):
                r = self.root(f, e['as'][0], loc, depth + 1)
                return 'object behind a pointer' if r == 'local' else r
            return self.root(f, e['as'][0], loc, depth + 1)
        if k == 'mcl' and isinstance(e.get('ob'), dict):
            r = self.root(f, e['ob'], loc, depth + 1)
            if e.get('fn', {}).get('n') == 'get' and r == 'local':
                return 'object behind a pointer'
            return r
        if k == 'cal' and e.get('fn', {}).get('n') in ('move', 'forward', 'ref', 'get') and e.get('as'):
            return self.root(f, e['as'][0], loc, depth + 1)
        if k == 'cond':
            rs = {self.root(f, e[x], loc, depth + 1) for x in ('a', 'b')}
            return rs.pop() if len(rs) == 1 else next(x for x in rs if x != 'local')
        if k in ('ctor', 'cal', 'ini', 'lam', 'str', 'int', 'flt', 'bin', 'new'):
            return 'local' if not e.get('lv') else '?'     # a temporary
        return '?'

    # ------------------------------------------------------------------ effects
    def of_fn(self, key):
        f = self.P.fns.get(key)
        if f is None:
            return None
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        r = []
        for x in f.get('inits') or ():
            r += self.of(f, x, ctor=True)
        r += self.of(f, f.get('b'), ctor=bool(f.get('ctor') or f.get('dtor')))
        self.memo[key] = r
        return r

    def of(self, f, tree, ctor=False, loc=None):
        """[(kind, description, node)] with kind in write, print, unknown; loc = {} counts writes to f's own variables too"""
        out = []
        loc = self.locals(f) if loc is None else loc
        for n in nodes(tree):
            k = n['k']
            if k == 'asg':
                self.write(f, n['a'], loc, n, out, ctor)
            elif k == 'un' and n['op'] in ('++', '--'):
                self.write(f, n['a'], loc, n, out, ctor)
            elif k == 'new':
                out.append(('alloc', 'new', n))
            elif k == 'del':
                r = self.root(f, n['a'], loc)
                out.append(('write', 'deletes %s' % r, n))
            elif k == 'throw':
                out.append(('throw', 'throws', n))
            elif k == 'lam':
                for kind, d, m in self.of_fn(n['fn']['key']) or ():
                    out.append((kind, d, n))
            elif k in ('cal', 'mcl', 'opc', 'ctor'):
                self.call(f, n, loc, out, ctor)
        return out

    def write(self, f, e, loc, n, out, ctor):
        r = self.root(f, e, loc)
        if r == 'local' or ctor and r == 'this':
            return
        out.append(('write' if r != '?' else 'unknown', 'writes %s' % r, n))

    def call(self, f, n, loc, out, ctor):
        fn = n.get('fn')
        if fn is None:
            if n['k'] == 'ctor':
                return
            out.append(('unknown', 'indirect call', n))
            return
        q, nm = fn.get('q', ''), fn.get('n', '')
        key = fn.get('key')
        k = n['k']
        if q.endswith('utils::AssertMsg'):
            return
        recv = n.get('ob') if k == 'mcl' else (n['as'][0] if k == 'opc' and n.get('as') else None)
        # output
        if nm in PRINTS or nm == 'operator<<' and recv is not None and self.is_stream(f, leftmost(recv)):
            r = self.root(f, leftmost(recv), loc) if recv is not None else 'stdout'
            if r != 'local':
                out.append(('print', 'prints to %s' % r, n))
            return
        if key in self.P.fns:
            targets = [key] + sorted(self.P.overriders.get(key, ())) if fn.get('v') else [key]
            for t in targets:
                for kind, d, m in self.of_fn(t) or ():
                    r = 'callee'
                    if kind == 'write' and d == 'writes this' and recv is not None:
                        r = self.root(f, recv, loc)
                        if r == 'local':
                            continue
                    if kind == 'write' and d.startswith('writes object behind ') and self.param_local(f, n, t, d, loc):
                        continue
                    out.append((kind, d if ' via ' in d else '%s via %s' % (d, facts.strip_targs(q)), n))
            return
        if k == 'ctor':
            return
        if fn.get('v') and not fn.get('cst') and q.startswith('altro::'):
            out.append(('unknown', 'virtual %s' % q, n))
            return
        if k == 'opc' and n.get('op') in WRITE_OPS and recv is not None:
            self.write(f, recv, loc, n, out, ctor)
            return
        if k == 'mcl':
            if fn.get('cst') or nm in ACCESS or facts.strip_targs(nm) in ACCESS or nm.startswith('operator '):
                return
            r = self.root(f, recv, loc)
            if r != 'local' and not (ctor and r == 'this'):
                out.append(('write' if r != '?' else 'unknown', 'calls %s on %s' % (nm, r), n))
            return
        if k == 'opc':
            if n.get('op') == '()' and q.startswith('std::function'):
                out.append(('unknown', 'calls a stored function', n))
            return
        if nm in PURE_STD or nm == 'move':
            return
        if q.startswith('altro::') and fn.get('cst'):
            return
        out.append(('unknown', 'calls %s' % q, n))

    def param_local(self, f, n, t, d, loc):
        """the object behind the parameter of callee t is local to the caller"""
        g = self.P.fns.get(t)
        if g is None:
            return False
        nm = d[len('writes object behind '):].split(' via ')[0]
        for i, p in enumerate(g['ps']):
            if p.get('n') == nm and i < len(n.get('as', ())):
                a = n['as'][i + (1 if n['k'] == 'opc' and g.get('cls') else 0)] if i + (1 if n['k'] == 'opc' and g.get('cls') else 0) < len(n['as']) else None
                return a is not None and self.root(f, a, loc) == 'local'
        return False


def leftmost(e):
    while isinstance(e, dict) and e['k'] == 'opc' and e.get('op') == '<<' and e.get('as'):
        e = e['as'][0]
    return e


def decls(n):
    if n['k'] == 'decl':
        return n.get('vs') or []
    if n['k'] in ('rfor', 'while', 'if'):
        v = n.get('var')
        return [v] if isinstance(v, dict) and 'id' in v else []
    return []
