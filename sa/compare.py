"""Agreement of two function summaries: same observable effects on every feasible path (within the loop bound)."""
import ast
import itertools
import random
from fractions import Fraction

from .terms import (mkapp, BOT, CUT, BYUID, Blowup, Budget, FALSE, H, L, Node, TERMS, TRUE, cof, implied, leaf, numval, restrict, show, show_atom, show_term, sym, top, bind, num, t_add, t_sub, t_mul, t_div)
from .flow import Analyzer, EMPTYTRACE, seqterm


class Inconclusive(Exception):
    pass


EMPTYLIST = seqterm('list', ())


# ------------------------------------------------------------------ feasibility of a conjunction of atoms
def lin_of(t):
    """numeric term -> ({unit: coef}, const) treating non-linear monomials as units"""
    p = t.poly
    if p is None:
        return {('t', t.fp): Fraction(1)}, Fraction(0)
    d, c = {}, Fraction(0)
    for m, k in p.items():
        if m == ():
            c += k
        else:
            d[m] = d.get(m, 0) + k
    return d, c


def feasible(path, extra=()):
    """path: [(atom, outcome)].  Sound refutation only: False means certainly infeasible."""
    ineqs = list(extra)        # (coefs, const, strict): sum + const < 0 or <= 0
    eqs = {}
    truths = {}
    kinds = {}
    for a, o in path:
        if a.kind == 'truthy':
            truths[a.data.fp] = o
            t = a.data
            if t.kind == 'app' and t.args[0] == 'isinstance' and o == 1 and len(t.args) == 3 and t.args[1].var is None and t.args[2].var is None and \
               t.args[2].term.args in ('list', 'dict', 'tuple', 'set', 'str') and kinds.setdefault(t.args[1].fp, t.args[2].term.args) != t.args[2].term.args:
                return False
            if t.kind == 'app' and t.args[0] in ('hasattr', 'getattr') and t.args[-1].var is None and t.args[-1].term.kind == 'sel' and kinds.setdefault(t.args[-1].fp, 'str') != 'str':
                return False        # the name of an attribute is a string
        if a.kind in ('sgn', 'cut'):
            d, c = lin_of(a.data)
            c = c - a.c
            neg = {k: -v for k, v in d.items()}
            if a.kind == 'cut':
                ineqs.append((d, c, True) if o == 0 else (neg, -c, True))
            elif o == 0:
                ineqs.append((d, c, True))
            elif o == 2:
                ineqs.append((neg, -c, True))
            else:
                ineqs.append((d, c, False))
                ineqs.append((neg, -c, False))
        elif a.kind == 'eq' and o == 1:
            t, k = a.data
            if t.fp in eqs and eqs[t.fp] != k.fp:
                return False
            eqs[t.fp] = k.fp
    # abs/sqrt/len style facts
    units = {u for d, _, _ in ineqs for u in d}
    for u in units:
        if len(u) == 1 and isinstance(u[0], tuple) and u[0][1] == 1:
            t = BYUID[u[0][0]]
            if t.kind == 'app' and t.args[0] in ('sqrt', 'abs', 'len'):
                ineqs.append(({u: Fraction(-1)}, Fraction(0), False))
                if truths and t.args[0] == 'len' and t.args[1].var is None and t.args[1].term.fp in truths:
                    # a container is true exactly when it has members
                    ineqs.append(({u: Fraction(-1)}, Fraction(1), False) if truths[t.args[1].term.fp] else ({u: Fraction(1)}, Fraction(0), False))
        elif isinstance(u, tuple) and u and u[0] != 't' and all(e % 2 == 0 for _, e in u):
            ineqs.append(({u: Fraction(-1)}, Fraction(0), False))
    return fm([tighten(x) for x in ineqs])


def tighten(x):
    """an inequality between integers, with its bound rounded"""
    d, c, s = x
    for u, k in d.items():
        if k.denominator != 1 or not isinstance(u, tuple) or not u or u[0] == 't' or not all(BYUID[a].isint for a, _ in u):
            return x
    b = -c
    hi = -((-b.numerator) // b.denominator) - 1 if s else b.numerator // b.denominator
    return d, Fraction(-hi), False


def len_unit(t):
    return ((mkapp('app', 'len', (leaf(t),), isint=True).uid, 1),)


def empty_on(path, t):
    """is the container t certainly empty on this path"""
    return not feasible(path, [({len_unit(t): Fraction(-1)}, Fraction(1), False)])


def unempty(path, t):
    """a container, without the parts that are empty on this path"""
    while t.kind == 'app' and t.args[0] == 'concat' and t.args[1].var is None and t.args[2].var is None and t.args[2].term.kind == 'list' and empty_on(path, t.args[1].term):
        t = t.args[2].term
    if t.kind not in ('list', 'num', 'const', 'poly', 'big', 'tuple', 'dict', 'set', 'arr') and empty_on(path, t):
        return EMPTYLIST
    return t


def fm(ineqs, limit=400):
    todo = []
    for d, c, s in ineqs:
        d = {k: v for k, v in d.items() if v}
        if not d:
            if c > 0 or (s and c == 0):
                return False
            continue
        todo.append((d, c, s))
    while todo:
        cnt = {}
        for d, _, _ in todo:
            for k, v in d.items():
                p = cnt.setdefault(k, [0, 0])
                p[0 if v > 0 else 1] += 1
        k = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1])
        pos = [x for x in todo if x[0].get(k, 0) > 0]
        neg = [x for x in todo if x[0].get(k, 0) < 0]
        rest = [x for x in todo if not x[0].get(k)]
        if len(pos) * len(neg) > limit:
            return True
        seen = set()
        for p in pos:
            for n in neg:
                a, b = p[0][k], -n[0][k]
                d = {}
                for q, v in p[0].items():
                    d[q] = d.get(q, 0) + v / a
                for q, v in n[0].items():
                    d[q] = d.get(q, 0) + v / b
                d = {q: v for q, v in d.items() if v}
                c = p[1] / a + n[1] / b
                s = p[2] or n[2]
                if not d:
                    if c > 0 or (s and c == 0):
                        return False
                    continue
                m = max(abs(v) for v in d.values())
                key = (tuple(sorted((hash(q), v / m) for q, v in d.items())), c / m, s)
                if key not in seen:
                    seen.add(key)
                    rest.append((d, c, s))
        todo = rest
        if len(todo) > limit:
            return True
    return True


# ------------------------------------------------------------------ diff
def under(n, path):
    """cofactor a node by the outcomes of a path"""
    for a, o in path:
        n = full_restrict(n, a, o)
    return n


_fr_memo = {}


def full_restrict(n, v, b):
    if n.var is None:
        return n
    if n.var.order > v.order and n.var.group != v.group:
        # v cannot occur below unless order is smaller; nodes are ordered
        return n
    key = (n.uid, v.uid, b)
    r = _fr_memo.get(key)
    if r is not None:
        return r
    if n.var is v:
        r = full_restrict(n.ch[b], v, b)
    else:
        o = implied(v, b, n.var) if n.var.group == v.group else None
        if o is not None:
            r = full_restrict(n.ch[o], v, b)
        else:
            from .terms import mk
            r = mk(n.var, [full_restrict(c, v, b) for c in n.ch])
    _fr_memo[key] = r
    return r


_gate_memo = {}


def has_gate(t):
    r = _gate_memo.get(t.uid)
    if r is None:
        if t.kind == 'gate':
            r = True
        elif t.kind == 'inv':
            r = has_gate(t.args[0])
        elif t.kind in ('poly', 'big') and isinstance(t.args, tuple) and len(t.args) == 3:
            r = has_gate(t.args[1]) or has_gate(t.args[2])
        else:
            r = False
        _gate_memo[t.uid] = r
    return r


def unbound(t, d=4):
    if t is BOT.term:
        return True
    return d > 0 and t.kind in ('app', 'sel', 'rec', 'call', 'poly', 'big', 'inv', 'tuple') and isinstance(t.args, tuple) and \
        any(unbound(x.term, d - 1) for x in t.args if isinstance(x, Node) and x.var is None)


class Differ:
    def __init__(self, modref, steps=60000):
        self.modref = modref
        self.steps = steps
        self.memo = set()
        self.context = 0

    def tick(self):
        self.steps -= 1
        if self.steps < 0:
            raise Inconclusive('diff budget')

    def diff(self, a, b, path):
        """None if equal on every feasible extension of path, else (path, termA, termB)"""
        if a is b:
            return None
        key = (a.uid, b.uid)
        if key in self.memo:
            return None
        self.tick()
        v = top((a, b))
        if v is None:
            if a is CUT or b is CUT:
                return None
            self.context += 1
            return self.diff_terms(a.term, b.term, path)
        c0 = self.context
        for i in range(v.arity):
            ca, cb = cof(a, v, i), cof(b, v, i)
            if ca is cb:
                continue
            p = path + [(v, i)]
            if not feasible(p):
                self.context += 1
                continue
            r = self.diff(ca, cb, p)
            if r is not None:
                return r
        if self.context == c0:
            self.memo.add(key)        # equal whatever the path
        return None

    def probe(self, a, b, tries=60):
        """random descents: finds an abundant difference quickly"""
        rng = random.Random(1)
        for _ in range(tries):
            x, y, path = a, b, []
            while x is not y:
                v = top((x, y))
                if v is None:
                    break
                opts = [i for i in range(v.arity) if cof(x, v, i) is not cof(y, v, i) and feasible(path + [(v, i)])]
                if not opts:
                    x = y
                    break
                i = rng.choice(opts)
                path.append((v, i))
                x, y = cof(x, v, i), cof(y, v, i)
            if x is y or x is CUT or y is CUT:
                continue
            s0 = self.steps
            self.steps = 2000
            try:
                r = self.diff_terms(x.term, y.term, path)
            except Inconclusive:
                r = None
            self.steps = s0
            if r is not None:
                return r
        return None

    def diff_terms(self, s, t, path):
        if s is t or s is CUT.term or t is CUT.term:
            return None
        if s.kind == 'trace' and t.kind == 'trace':
            s2, t2 = self.foata(s), self.foata(t)
            if len(s2) != len(t2):
                return (path, s, t)
            for x, y in zip(s2, t2):
                r = self.diff(under(x, path), under(y, path), path)
                if r is not None:
                    return (path, s, t) if r[0] == path and len(s2) < 2 else r
            return None
        if s.kind == t.kind and s.kind in ('tuple', 'list', 'set', 'arr', 'strcat', 'slice') and len(s.args) == len(t.args):
            for x, y in zip(s.args, t.args):
                r = self.diff(under(x, path), under(y, path), path)
                if r is not None:
                    return r
            return None
        if s.kind == t.kind == 'dict':
            ds, dt = {k.fp: v for k, v in s.args}, {k.fp: v for k, v in t.args}
            if set(ds) == set(dt):
                for k in ds:
                    r = self.diff(under(ds[k], path), under(dt[k], path), path)
                    if r is not None:
                        return r
                return None
        if s.kind == t.kind and isinstance(s.args, tuple) and isinstance(t.args, tuple) and s.args and isinstance(s.args[0], str) and s.args[0] == t.args[0] \
           and len(s.args) == len(t.args) and all(isinstance(x, Node) for x in s.args[1:] + t.args[1:]):
            for x, y in zip(s.args[1:], t.args[1:]):
                r = self.diff(under(x, path), under(y, path), path)
                if r is not None:
                    return (r[0], s, t)
            return None
        if s.kind in ('poly', 'big', 'inv') and t.kind == s.kind and isinstance(s.args, tuple) and len(s.args) == 3 and s.args[0] == t.args[0]:
            a = self.diff_terms(s.args[1], t.args[1], path)
            b = self.diff_terms(s.args[2], t.args[2], path) if a is None else a
            if a is None and b is None:
                return None
        if has_gate(s) or has_gate(t):
            a, b = self.expand(s, path), self.expand(t, path)
            if a is not None and b is not None and (a is not leaf(s) or b is not leaf(t)):
                return self.diff(a, b, path)
        if s.kind == 'list' or t.kind == 'list':
            s2, t2 = unempty(path, s), unempty(path, t)
            if s2 is t2:
                return None
            if (s2 is not s or t2 is not t) and s2.kind == t2.kind == 'list':
                return self.diff_terms(s2, t2, path)
        if s.poly is not None and t.poly is not None or s.poly is not None and t.kind == 'app' or t.poly is not None and s.kind == 'app':
            # numbers that the tests on the path make equal
            d, c = lin_of(s)
            e, f = lin_of(t)
            for k, v in e.items():
                d[k] = d.get(k, 0) - v
            c = c - f
            if not feasible(path, [(d, c, True)]) and not feasible(path, [({k: -v for k, v in d.items()}, -c, True)]):
                return None
        if unbound(s):
            return None        # the reference stops with an unbound name
        return (path, s, t)

    def expand(self, t, path):
        """arithmetic over gated values, with the gates decided by the path"""
        memo = {}

        def ev(t):
            r = memo.get(t.uid)
            if r is None:
                if not has_gate(t):
                    r = leaf(t)
                elif t.kind == 'gate':
                    r = bind(lambda x: ev(x), [under(t.args[1], path)])
                elif t.kind == 'inv':
                    r = bind(lambda x: leaf(t_div(num(1), x)), [ev(t.args[0])])
                else:
                    op = {'+': t_add, '-': t_sub, '*': t_mul, '/': t_div}[t.args[0]]
                    x, y = ev(t.args[1]), ev(t.args[2])
                    if len(x.nl) * len(y.nl) > 20000:
                        raise Inconclusive('gated arithmetic too large')
                    r = bind(lambda p, q: leaf(op(p, q)), [x, y])
                memo[t.uid] = r
            return r
        try:
            return ev(t)
        except KeyError:
            return None

    def indep(self, x, y):
        def ch(n):
            if n.var is not None or n.term.kind not in ('rec', 'call'):
                return None
            return self.modref.get(n.term.args[0])
        a, b = ch(x), ch(y)
        if a is None or b is None:
            return False
        return not (a[0] & b[0] or a[0] & b[1] or a[1] & b[0])

    def foata(self, t):
        """canonical order of a trace modulo commutation of independent records (lexicographic normal form)"""
        items = list(t.args)
        out = []
        while items:
            best = None
            for i, x in enumerate(items):
                if all(self.indep(x, y) for y in items[:i]):
                    if best is None or x.fp < items[best].fp:
                        best = i
            out.append(items.pop(best))
        return out


def showpath(path, d=2):
    def o(a, i):
        if a.kind == 'sgn':
            return '%s %s %s' % (show_term(a.data, d), '<=>'[i], float(a.c))
        if a.kind == 'cut':
            return '%s %s %s' % (show_term(a.data, d), '<>'[i], float(a.c))
        if a.kind == 'eq':
            return '%s %s %s' % (show_term(a.data[0], d), '==' if i else '!=', show_term(a.data[1], d))
        return ('' if i else 'not ') + show_term(a.data, d)
    return ' and '.join(o(a, i) for a, i in path[-6:]) or 'always'


def keystr(k):
    if isinstance(k, str):
        return k
    if k[0] == 't':
        return 'calls'
    if k[0] == 'a':
        return '%s.%s' % (show_term(TERMS[k[1]], 3), k[2])
    if k[0] == 'i':
        return '%s[...]' % show_term(TERMS[k[1]], 3)
    return str(k)


def names_in(nodes):
    """names of calls occurring in values"""
    out = {}
    seen = set()
    todo = list(nodes)
    while todo:
        x = todo.pop()
        if isinstance(x, Node):
            if ('n', x.uid) in seen:
                continue
            seen.add(('n', x.uid))
            if x.var is None:
                todo.append(x.term)
            else:
                todo.extend(x.ch)
                d = x.var.data
                todo.extend(d if isinstance(d, tuple) else [d])
            continue
        t = x
        if t.uid in seen:
            continue
        seen.add(t.uid)
        if t.kind == 'obj':
            out['#obj'] = 1
        if t.kind in ('call', 'rec', 'app') and isinstance(t.args, tuple):
            nm = t.args[0]
            out[nm] = out.get(nm, 0) + 1
        if t.kind in ('poly',) and t.poly:
            todo.extend(BYUID[u] for m in t.poly for u, _ in m if BYUID[u] is not t)
        if isinstance(t.args, tuple):
            for y in t.args:
                if isinstance(y, Node):
                    todo.append(y)
                elif isinstance(y, tuple):
                    todo.extend(z for z in y if isinstance(z, Node))
                elif hasattr(y, 'kind') and y is not t:
                    todo.append(y)
    return out


DISTINCT_EXT = {'round', 'floor', 'ceil', 'int', 'abs', 'numpy.rint', 'numpy.trunc', 'numpy.round', 'numpy.around', 'numpy.mean', 'numpy.median', 'numpy.nanmin', 'numpy.nanmax',
                'numpy.nanmean', 'numpy.argmax', 'numpy.argmin', 'numpy.unique', 'numpy.sort', 'sorted', 'numpy.float32', 'numpy.float64', 'numpy.int32', 'numpy.sign', 'numpy.min', 'numpy.max',
                'numpy.sum', 'sum', 'min', 'max', 'any', 'all', 'numpy.any', 'numpy.all', 'bool', 'str', 'float', 'len', 'set', 'fmod', 'pow', 'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'acos', 'asin',
                'atan2', 'numpy.isclose', 'numpy.allclose', 'isnan', 'numpy.isfinite', 'numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.array', 'list', 'tuple', 'dict', 'sinh', 'cosh', 'tanh', 'log10', 'rand', 'hypot',
                'numpy.tan', 'numpy.sinh', '.copy', '.astype', '.lower', '.upper', '.strip', '.sort', '.flatten', '.min', '.max', '.sum', '.any', '.all', '.mean', 'copy.copy', 'copy.deepcopy', 'numpy.clip', 'numpy.floor_divide', 'numpy.mod', 'numpy.remainder', 'math.trunc', 'math.fmod', 'numpy.random.uniform', 'numpy.nansum', 'numpy.searchsorted'}


def compare_summaries(S1, S2, ignore_attrs=(), known=None):
    """S1 reference, S2 implementation.  -> None | (what, text)"""
    modref = dict(S1.info.get('modref', {}))
    for k, v in S2.info.get('modref', {}).items():
        if k in modref:
            modref[k] = (modref[k][0] | v[0], modref[k][1] | v[1])
        else:
            modref[k] = v
    D = Differ(modref)
    keys = sorted(set(S1.obs) | set(S2.obs), key=str)
    from .terms import ite
    an = Analyzer.__new__(Analyzer)
    for k in keys:
        if isinstance(k, tuple) and k[0] == 'a' and k not in S1.obs and k[2] in ignore_attrs:
            continue
        a, b = S1.obs.get(k), S2.obs.get(k)

        def dflt(S):
            d = EMPTYTRACE if k[0] == 't' else Analyzer.hdefault(an, {}, k)
            return ite(S.cover, d, CUT)
        if isinstance(k, str):
            if a is None or b is None:
                if k.startswith('default:') and a is None:
                    continue      # extra parameter
                if k.startswith('exc:'):
                    continue      # where it is raised is part of 'ret'
                return (k, 'missing')
        else:
            a = a if a is not None else dflt(S1)
            b = b if b is not None else dflt(S2)
        r = D.probe(a, b) or D.diff(a, b, [])
        if r is not None:
            path, s, t = r
            return (keystr(k), 'when %s: reference %s, code %s' % (showpath(path), show_term(s, 5)[:300], show_term(t, 5)[:300]))
    return None
