"""Order conditions of the advection kernels and the stochastic schemes of the diffusion kernels, from the kernel sources.

A kernel is read as a straight-line program over polynomials with rational coefficients; every sampled velocity
and every random draw is a new symbol.  From the polynomials the Butcher tableau is read off and the order
conditions are checked exactly."""
import ast
import itertools
from fractions import Fraction

from . import rule


class NotUnderstood(Exception):
    pass


class Poly:
    """polynomial (with integer, possibly negative, powers) over named symbols"""

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v != 0}

    @staticmethod
    def sym(s):
        return Poly({((s, 1),): Fraction(1)})

    @staticmethod
    def num(x):
        return Poly({(): Fraction(x)})

    def __add__(self, o):
        r = dict(self.d)
        for k, v in o.d.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __neg__(self):
        return Poly({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    @staticmethod
    def mono(a, b):
        m = dict(a)
        for s, p in b:
            m[s] = m.get(s, 0) + p
        return tuple(sorted((s, p) for s, p in m.items() if p))

    def __mul__(self, o):
        r = {}
        for a, v in self.d.items():
            for b, u in o.d.items():
                k = self.mono(a, b)
                r[k] = r.get(k, 0) + v * u
        return Poly(r)

    def inverse(self):
        if len(self.d) != 1:
            raise NotUnderstood('division by a sum')
        (k, v), = self.d.items()
        return Poly({tuple((s, -p) for s, p in k): 1 / v})

    def const(self):
        if not self.d:
            return Fraction(0)
        if list(self.d) == [()]:
            return self.d[()]
        return None

    def key(self):
        return tuple(sorted(self.d.items()))

    def __eq__(self, o):
        return self.d == o.d

    def coeff(self, **powers):
        return self.d.get(tuple(sorted((s, p) for s, p in powers.items())), Fraction(0))

    def symbols(self):
        return {s for k in self.d for s, _ in k}


COORD = ('time', 'depth', 'lat', 'lon')


class Kernel:
    """all paths of one kernel: [(conditions, final position, samples)]"""

    def __init__(self, fn):
        self.fn = fn
        self.atoms = {}      # symbol -> (function, argument polynomials)
        self.samples = []    # (field, (time, depth, lat, lon), [component symbols])
        self.draws = []      # (symbol, function, arguments)
        self.paths = []
        env = {'particle.' + c: Poly.sym(c.upper()) for c in ('lon', 'lat', 'depth')}
        env['particle.dt'] = Poly.sym('DT')
        env['particle.time'] = env['time'] = Poly.sym('TIME')
        self.start = dict(env)
        self.block(fn.body, env, [])

    def atom(self, f, args):
        k = (f,) + tuple(a.key() for a in args)
        for s, (g, b) in self.atoms.items():
            if (g,) + tuple(a.key() for a in b) == k:
                return Poly.sym(s)
        s = '%s%d' % (f, len(self.atoms))
        self.atoms[s] = (f, args)
        return Poly.sym(s)

    def sample(self, field, args, ncomp):
        for f, a, syms in self.samples:
            if f == field and all(x == y for x, y in zip(a, args)):
                return syms
        i = len(self.samples)
        syms = ['k%d_%s' % (i, c) for c in 'uvw'[:ncomp]] if ncomp > 1 else ['k%d' % i]
        self.samples.append((field, args, syms))
        return syms

    def path(self, e):
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute):
            b = self.path(e.value)
            return b and b + '.' + e.attr
        return None

    def ev(self, e, env):
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
            return Poly.num(Fraction(str(e.value)))
        if isinstance(e, (ast.Name, ast.Attribute)):
            p = self.path(e)
            if p in env:
                return env[p]
            if p and p.startswith('fieldset.'):
                return Poly.sym(p)
            raise NotUnderstood(ast.unparse(e))
        if isinstance(e, (ast.List, ast.Tuple)):
            return [self.ev(x, env) for x in e.elts]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
            v = self.ev(e.operand, env)
            return -v if isinstance(e.op, ast.USub) else v
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if not (isinstance(a, Poly) and isinstance(b, Poly)):
                raise NotUnderstood(ast.unparse(e))
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                return a * b
            if isinstance(e.op, ast.Div):
                return a * b.inverse()
            if isinstance(e.op, ast.Pow):
                return self.power(a, b)
            raise NotUnderstood(ast.unparse(e))
        if isinstance(e, ast.Subscript):
            p = self.path(e.value)
            if p and p.startswith('fieldset.'):
                return self.field(p[9:], e.slice, env)
            v = self.ev(e.value, env)
            i = self.ev(e.slice, env)
            if isinstance(v, list) and isinstance(i, Poly) and i.const() is not None:
                return v[int(i.const())]
            raise NotUnderstood(ast.unparse(e))
        if isinstance(e, ast.Call) and not e.keywords:
            f = self.path(e.func)
            if f and f.startswith('fieldset.') and f.endswith('.eval') and len(e.args) >= 4:
                return self.field(f[9:-5], ast.Tuple(e.args[:1] + e.args[1:4], ast.Load()), env)
            name = (f or '').split('.')[-1]
            args = [self.ev(a, env) for a in e.args]
            if not all(isinstance(a, Poly) for a in args):
                raise NotUnderstood(ast.unparse(e))
            if name == 'pow' and len(args) == 2:
                return self.power(*args)
            if name in ('sqrt', 'fabs', 'abs', 'exp', 'cos', 'sin'):
                return self.atom('fabs' if name == 'abs' else name, args)
            if name in ('normalvariate', 'uniform', 'random', 'expovariate', 'randint', 'vonmisesvariate'):
                s = 'R%d' % len(self.draws)
                self.draws.append((s, name, args))
                return Poly.sym(s)
        raise NotUnderstood(ast.unparse(e))

    def power(self, a, b):
        n = b.const()
        if n == Fraction(1, 2):
            return self.atom('sqrt', [a])
        if n is None or n.denominator != 1 or not 0 <= n <= 6:
            raise NotUnderstood('power')
        r = Poly.num(1)
        for _ in range(int(n)):
            r = r * a
        return r

    def field(self, name, idx, env):
        if isinstance(idx, ast.Name) and idx.id == 'particle':
            args = [env['time'], env['particle.depth'], env['particle.lat'], env['particle.lon']]
        elif isinstance(idx, ast.Tuple) and len(idx.elts) in (4, 5):
            args = [self.ev(x, env) for x in idx.elts[:4]]
        else:
            raise NotUnderstood('index of fieldset.' + name)
        n = {'UV': 2, 'UVW': 3}.get(name, 1)
        r = [Poly.sym(s) for s in self.sample(name, args, n)]
        return r if n > 1 else r[0]

    def bind(self, t, v, env):
        if isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, list) or len(v) != len(t.elts):
                raise NotUnderstood('unpacking')
            for a, b in zip(t.elts, v):
                self.bind(a, b, env)
            return
        p = self.path(t)
        if p is None:
            raise NotUnderstood(ast.unparse(t))
        env[p] = v

    def block(self, body, env, conds):
        for i, s in enumerate(body):
            if isinstance(s, ast.Assign):
                v = self.ev(s.value, env)
                for t in s.targets:
                    self.bind(t, v, env)
            elif isinstance(s, ast.AugAssign):
                v = self.ev(ast.BinOp(s.target, s.op, s.value), env)
                self.bind(s.target, v, env)
            elif isinstance(s, ast.Expr):
                if isinstance(s.value, ast.Call) and (self.path(s.value.func) or '').startswith('particle.'):
                    continue
                if not isinstance(s.value, ast.Constant):
                    self.ev(s.value, env)
            elif isinstance(s, ast.If):
                t = s.test
                if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
                    raise NotUnderstood(ast.unparse(t))
                a, b = self.ev(t.left, env), self.ev(t.comparators[0], env)
                for taken, part in ((True, s.body), (False, s.orelse)):
                    self.block(part + body[i + 1:], dict(env), conds + [(a, type(t.ops[0]).__name__, b, taken)])
                return
            elif isinstance(s, ast.Return):
                self.paths.append((conds, env, ast.unparse(s.value) if s.value is not None else None))
                return
            elif isinstance(s, ast.Pass):
                pass
            else:
                raise NotUnderstood(ast.unparse(s))
        self.paths.append((conds, env, None))


# ------------------------------------------------------------------ rooted trees
def trees(n):
    """rooted trees with n nodes as nested sorted tuples"""
    if n == 1:
        return [()]
    out = set()

    def parts(total, most):
        if total == 0:
            yield ()
            return
        for k in range(min(total, most), 0, -1):
            for r in parts(total - k, k):
                yield (k,) + r
    for p in parts(n - 1, n - 1):
        for c in itertools.product(*[trees(k) for k in p]):
            out.add(tuple(sorted(c)))
    return sorted(out)


def size(t):
    return 1 + sum(size(c) for c in t)


def gamma(t):
    g = size(t)
    for c in t:
        g *= gamma(c)
    return g


def weight(t, A, n):
    """vector of elementary weights of the stages"""
    out = [Fraction(1)] * n
    for c in t:
        w = weight(c, A, n)
        for i in range(n):
            out[i] *= sum((A[i][j] * w[j] for j in range(n)), Fraction(0))
    return out


def failing(A, b, order, tol=Fraction(1, 10**12)):
    n = len(b)
    for k in range(1, order + 1):
        for t in trees(k):
            w = weight(t, A, n)
            if abs(sum((x * y for x, y in zip(b, w)), Fraction(0)) - Fraction(1, gamma(t))) > tol:
                yield k, t


# ------------------------------------------------------------------ Runge-Kutta kernels
def tableau(k, comps, viol, what):
    """A and stage times; every component must use the same coefficients"""
    field = 'UVW' if len(comps) == 3 else 'UV'
    st = [s for s in k.samples if s[0] == field]
    if not st or len(st) != len(k.samples):
        raise NotUnderstood('samples of other fields')
    n = len(st)
    A = [[Fraction(0)] * n for _ in range(n)]
    for i, (_, args, _) in enumerate(st):
        a = dict(zip(COORD, args))
        dtime = a['time'] - Poly.sym('TIME')
        c = dtime.coeff(DT=1)
        if dtime != Poly({(('DT', 1),): c}):
            raise NotUnderstood('stage time')
        rows = []
        for ci, comp in enumerate(('lon', 'lat', 'depth')):
            d = a[comp] - Poly.sym(comp.upper())
            if comp not in comps:
                if d.d:
                    viol.append((what, 'stage %d is sampled at a shifted %s' % (i + 1, comp)))
                continue
            row = linear(d, st, ci)
            if row is None:
                raise NotUnderstood('stage position')
            rows.append(row)
        for r in rows[1:]:
            if r != rows[0]:
                viol.append((what, 'stage %d: %s are displaced with different coefficients' % (i + 1, ' and '.join(comps))))
        A[i] = rows[0]
        if any(x for x in A[i][i:]):
            raise NotUnderstood('implicit scheme')
        if sum(A[i]) != c and abs(sum(A[i]) - c) > Fraction(1, 10**12):
            viol.append((what, 'stage %d: sampled at time + %s dt, but displaced over %s dt' % (i + 1, c, sum(A[i]))))
    return st, A


def linear(d, st, ci):
    """coefficients of (sampled component ci of stage j) * dt in d, or None when d is anything else"""
    row, left = [], d
    for _, _, syms in st:
        m = tuple(sorted([(syms[ci], 1), ('DT', 1)]))
        x = d.d.get(m, Fraction(0))
        row.append(x)
        left = left - Poly({m: x})
    return row if not left.d else None


def kernel_ast(w, name):
    for m in w.modules.values():
        if m.relpath.startswith('parcels/kernels/'):
            for s in m.tree.body:
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    return m, s
    return None, None


EXPECT = {'AdvectionRK4': (('lon', 'lat'), 4), 'AdvectionRK4_3D': (('lon', 'lat', 'depth'), 4),
          'AdvectionEE': (('lon', 'lat'), 1), 'AdvectionRK45': (('lon', 'lat'), 4)}


def check_rk(name, m, fn, viol, notes):
    comps, order = EXPECT[name]
    k = Kernel(fn)
    obl = 0
    st, A = tableau(k, comps, viol, name)
    obl += len(st) * (len(comps) + 1)
    moved = 0
    for conds, env, ret in k.paths:
        ds = {c: env['particle.' + c] - k.start['particle.' + c] for c in ('lon', 'lat', 'depth')}
        if not any(d.d for d in ds.values()):
            continue
        moved += 1
        rows = []
        for ci, c in enumerate(('lon', 'lat', 'depth')):
            if c not in comps:
                if ds[c].d:
                    viol.append((name, 'the %s is changed' % c))
                continue
            r = linear(ds[c], st, ci)
            if r is None:
                raise NotUnderstood('displacement')
            rows.append(r)
        obl += len(rows)
        for r in rows[1:]:
            if r != rows[0]:
                viol.append((name, '%s are moved with different weights' % ' and '.join(comps)))
        n = 0
        for kk, t in failing(A, rows[0], order):
            viol.append((name, 'order condition of order %d (tree %s) does not hold: the scheme has order %d, documented %d' % (kk, t, kk - 1, order)))
            break
        obl += sum(len(trees(i)) for i in range(1, order + 1))
        if name == 'AdvectionRK45':
            # the error estimate: difference to the fifth-order solution
            err = {}
            for a, op, b, taken in conds:
                for s in [a, b]:
                    est = root(s, st)
                    if est is not None:
                        err[tuple(est)] = est
            for est in err.values():
                b5 = [[x + sg * y for x, y in zip(rows[0], est)] for sg in (1, -1)]
                obl += sum(len(trees(i)) for i in range(1, 6))
                if all(next(failing(A, b, 5), None) for b in b5):
                    viol.append((name, 'the error estimate is not the difference to a solution of order 5'))
            if not err:
                notes.append('%s: error estimate not found in the step-size conditions' % name)
    if not moved:
        viol.append((name, 'no path moves the particle'))
    return obl


def root(p, st):
    """p = (sum e_i u_i dt)^2 + (sum e_i v_i dt)^2 -> e, else None"""
    e = []
    first = None
    for i, (_, _, syms) in enumerate(st):
        q = p.d.get(tuple(sorted([(syms[0], 2), ('DT', 2)])), Fraction(0))
        r = sq(q)
        if r is None:
            return None
        if first is None and r:
            first = i
        e.append(r)
    if first is None:
        return None
    for i, (_, _, syms) in enumerate(st):
        if i != first:
            x = p.d.get(Poly.mono(Poly.mono(((st[first][2][0], 1),), ((syms[0], 1),)), (('DT', 2),)), Fraction(0))
            e[i] = x / (2 * e[first])
    tot = Poly()
    for ci in (0, 1):
        s = Poly()
        for x, (_, _, syms) in zip(e, st):
            s = s + Poly.num(x) * Poly.sym(syms[ci]) * Poly.sym('DT')
        tot = tot + s * s
    return e if tot == p else None


def sq(q):
    from math import isqrt
    if q < 0:
        return None
    a, b = isqrt(q.numerator), isqrt(q.denominator)
    return Fraction(a, b) if a * a == q.numerator and b * b == q.denominator else None


@rule('order-conditions', ('C17',),
      'the Butcher tableau read from each Runge-Kutta kernel satisfies every order condition of its documented order exactly, with the same coefficients for every component and stage times equal to the row sums')
def order_conditions(impl, ref):
    obl, viol, notes = 0, [], []
    for name in EXPECT:
        m, fn = kernel_ast(impl, name)
        if fn is None:
            notes.append('%s not found' % name)
            continue
        try:
            v = []
            obl += check_rk(name, m, fn, v, notes)
            viol += [('%s:%s' % (m.relpath.split('/')[-1], w), t[:60], '%s (%s:%d): %s' % (name, m.relpath, fn.lineno, t)) for w, t in v]
        except NotUnderstood as e:
            notes.append('%s: form not understood: %s' % (name, e))
    return obl, viol, notes


# ------------------------------------------------------------------ stochastic kernels
def only_atom(k, p, f):
    """argument x when p is exactly f(x)"""
    for s in p.symbols():
        if p == Poly.sym(s) and s in k.atoms and k.atoms[s][0] == f:
            return k.atoms[s][1][0]
    return None


def check_sde(name, fn, viol):
    k = Kernel(fn)
    if len(k.paths) != 1:
        raise NotUnderstood('paths')
    _, env, _ = k.paths[0]
    DT = Poly.sym('DT')
    half = Poly.num(Fraction(1, 2))
    obl = 0
    for s, f, args in k.draws:
        obl += 1
        if f != 'normalvariate':
            raise NotUnderstood('draw from ' + f)
        sd = only_atom(k, args[1], 'sqrt')
        inner = sd is not None and only_atom(k, sd, 'fabs')
        if inner is False or inner is None:
            if args[1].symbols() - {'DT'} - ({x for x in k.atoms if sd is not None}):
                raise NotUnderstood('standard deviation')
            if sd is None and args[1].symbols() - {'DT'}:
                raise NotUnderstood('standard deviation')
        if args[0].const() is None:
            raise NotUnderstood('mean')
        if args[0].const() != 0 or inner is False or inner is None or inner != DT:
            viol.append((name, 'the increment %s is not normal with mean 0 and standard deviation sqrt(|dt|)' % s))
    used = []
    here = {'time': Poly.sym('TIME'), 'depth': Poly.sym('DEPTH'), 'lat': Poly.sym('LAT'), 'lon': Poly.sym('LON')}

    def at(field, **shift):
        args = [here[c] + shift.get(c, Poly()) for c in COORD]
        for f, a, syms in k.samples:
            if f == field and all(x == y for x, y in zip(a, args)):
                return Poly.sym(syms[0])
        return None
    for comp, vel, kh in (('lon', 'U', 'Kh_zonal'), ('lat', 'V', 'Kh_meridional')):
        d = env['particle.' + comp] - k.start['particle.' + comp]
        K = at(kh)
        if K is None:
            raise NotUnderstood('diffusivity at the particle')
        b = k.atom('sqrt', [Poly.num(2) * K])
        found = None
        known = {'DT', 'fieldset.dres'} | {x for x, _, _ in k.draws} | {x for _, _, y in k.samples for x in y} | b.symbols()
        if d.symbols() - known:
            raise NotUnderstood('change of %s contains %s' % (comp, ', '.join(sorted(d.symbols() - known))))
        for s, _, _ in k.draws:
            W = Poly.sym(s)
            want = b * W
            if name != 'DiffusionUniformKh':
                u = at(vel)
                res = Poly.sym('fieldset.dres')
                kp, km = at(kh, **{comp: res}), at(kh, **{comp: -res})
                if u is None or kp is None or km is None:
                    raise NotUnderstood('samples')
                grad = (kp - km) * (Poly.num(2) * res).inverse()
                want = want + u * DT
                want = want + (grad * DT if name == 'AdvectionDiffusionEM' else half * grad * (W * W + DT))
            obl += 1
            if d == want:
                found = s
        if found is None:
            viol.append((name, 'the change of %s is not the documented scheme' % comp))
        else:
            used.append(found)
    if len(used) == 2 and used[0] == used[1]:
        viol.append((name, 'both components use the same random increment'))
    return obl


@rule('stochastic-schemes', ('C17',),
      'the polynomial form of each diffusion kernel equals the Euler-Maruyama or Milstein step with independent increments N(0, sqrt|dt|) and central differences of the diffusivity')
def stochastic(impl, ref):
    obl, viol, notes = 0, [], []
    for name in ('AdvectionDiffusionM1', 'AdvectionDiffusionEM', 'DiffusionUniformKh'):
        m, fn = kernel_ast(impl, name)
        if fn is None:
            notes.append('%s not found' % name)
            continue
        v = []
        try:
            obl += check_sde(name, fn, v)
            viol += [('%s:%s' % (m.relpath.split('/')[-1], w), t[:60], '%s (%s:%d): %s' % (name, m.relpath, fn.lineno, t)) for w, t in v]
        except NotUnderstood as e:
            notes.append('%s: form not understood: %s' % (name, e))
    return obl, viol, notes
