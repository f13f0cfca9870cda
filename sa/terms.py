"""Semantic value numbers.

A *value* is a canonical ordered decision diagram (Node) whose tests are comparison atoms and whose
leaves are Terms.  Terms carry a value number ``fp`` in the field Z_p (p = 2^127-1): arithmetic is
interpreted (random interpretation of Gulwani & Necula: every uninterpreted atom is a pseudo-random
field element, + - * / are the field operations), everything else is hashed over the value numbers of
its parts.  Two numeric leaves are equal iff their value numbers are.  Small polynomials are kept
alongside, so that comparisons can be normalised to (linear form, threshold).
"""
import hashlib
from fractions import Fraction

P = (1 << 127) - 1
POLY_LIMIT = 48


class Blowup(Exception):
    pass


class Budget:
    nodes = 0
    limit = 3000000

    @classmethod
    def reset(cls, limit=None):
        cls.nodes = 0
        if limit:
            cls.limit = limit

    @classmethod
    def tick(cls, n=1):
        cls.nodes += n
        if cls.nodes > cls.limit:
            raise Blowup()


def H(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=16)
    return int.from_bytes(h.digest(), 'big') % P


def frac_fp(fr):
    fr = Fraction(fr)
    return fr.numerator * pow(fr.denominator, -1, P) % P


# ---------------------------------------------------------------- terms
class Term:
    __slots__ = ('kind', 'args', 'fp', 'poly', 'isint', 'uid', 'extra')

    def __repr__(self):
        return show_term(self)


TERMS = {}
BYUID = []


def _new(kind, args, fp, poly=None, isint=False, extra=None):
    t = Term()
    t.kind, t.args, t.fp, t.poly, t.isint, t.extra = kind, args, fp, poly, isint, extra
    t.uid = len(BYUID)
    BYUID.append(t)
    TERMS[fp] = t
    if t.poly is None and kind not in ('big',):
        t.poly = {((t.uid, 1),): Fraction(1)}
    return t


def num(v):
    """numeric constant"""
    fr = Fraction(v)
    fp = frac_fp(fr)
    t = TERMS.get(fp)
    if t is None:
        t = _new('num', fr, fp, poly=({(): fr} if fr else {}), isint=fr.denominator == 1)
    return t


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        fp = H('const', type(v).__name__, v)
        t = TERMS.get(fp)
        return t or _new('const', v, fp)
    if isinstance(v, (int, Fraction)):
        return num(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return sym('float:' + repr(v))
        return num(Fraction(repr(v)))
    if isinstance(v, complex):
        return sym('complex:' + repr(v))
    raise TypeError(v)


def sym(name, isint=False):
    fp = H('sym', name)
    t = TERMS.get(fp)
    return t or _new('sym', name, fp, isint=isint)


INTATTR = set()     # private attributes the reviewed program only ever counts in (the other one agrees, or its assignments differ)


def mkapp(kind, name, args, isint=False, extra=None):
    """uninterpreted application; args are Nodes"""
    fp = H(kind, name, tuple(a.fp for a in args))
    t = TERMS.get(fp)
    return t or _new(kind, (name,) + tuple(args), fp, isint=isint or kind == 'attr' and name in INTATTR, extra=extra)


def isconst(t):
    """terms that denote pairwise distinct known constants"""
    return t.kind in ('const', 'num', 'class', 'func', 'ext', 'code', 'ctype')


def _padd(p, q, s=1):
    if p is None or q is None:
        return None
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r if len(r) <= POLY_LIMIT else None


def _pmul(p, q):
    if p is None or q is None or len(p) * len(q) > 400:
        return None
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = dict(m1)
            for u, e in m2:
                d[u] = d.get(u, 0) + e
            m = tuple(sorted((u, e) for u, e in d.items() if e))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r if len(r) <= POLY_LIMIT else None


def mknum(fp, poly, isint, src):
    t = TERMS.get(fp)
    if t is not None:
        return t
    if poly is not None and len(poly) == 0:
        return num(0)
    if poly is not None and len(poly) == 1:
        (m, c), = poly.items()
        if m == ():
            return num(c)
    return _new('poly' if poly is not None else 'big', src, fp, poly=poly, isint=isint)


def numeric(t):
    if t.kind == 'const' and isinstance(t.args, bool):
        return num(int(t.args))
    return t


def t_add(a, b):
    a, b = numeric(a), numeric(b)
    return mknum((a.fp + b.fp) % P, _padd(a.poly, b.poly), a.isint and b.isint, ('+', a, b))


def t_sub(a, b):
    a, b = numeric(a), numeric(b)
    return mknum((a.fp - b.fp) % P, _padd(a.poly, b.poly, -1), a.isint and b.isint, ('-', a, b))


def t_mul(a, b):
    a, b = numeric(a), numeric(b)
    return mknum((a.fp * b.fp) % P, _pmul(a.poly, b.poly), a.isint and b.isint, ('*', a, b))


def t_neg(a):
    return t_sub(num(0), a)


def t_div(a, b):
    a, b = numeric(a), numeric(b)
    if b.fp == 0:
        return mkapp('app', 'divzero', (leaf(a),))
    fp = a.fp * pow(b.fp, -1, P) % P
    poly = None
    if b.poly is not None and len(b.poly) == 1:
        (m, c), = b.poly.items()
        inv = {tuple((u, -e) for u, e in m): 1 / c}
        poly = _pmul(a.poly, inv)
    elif a.poly is not None and len(a.poly) <= 8:
        # represent by an inverse atom
        ifp = pow(b.fp, -1, P)
        it = TERMS.get(ifp)
        if it is None:
            it = _new('inv', (b,), ifp)
        poly = _pmul(a.poly, {((it.uid, 1),): Fraction(1)})
    return mknum(fp, poly, False, ('/', a, b))


def numval(t):
    """Fraction if t is a numeric constant"""
    if t.kind == 'num':
        return t.args
    if t.kind == 'const' and isinstance(t.args, bool):
        return Fraction(int(t.args))
    return None


# ---------------------------------------------------------------- atoms and nodes
class Atom:
    __slots__ = ('kind', 'group', 'order', 'data', 'uid', 'arity', 'c')

    def __repr__(self):
        return show_atom(self)


ATOMS = {}
GROUPS = {}


def group_index(key):
    g = GROUPS.get(key)
    if g is None:
        g = GROUPS[key] = len(GROUPS)
    return g


def mkatom(kind, gkey, rank, sub, data, arity, c=None):
    k = (kind, gkey, rank, sub)
    a = ATOMS.get(k)
    if a is None:
        a = Atom()
        a.kind, a.data, a.arity, a.c = kind, data, arity, c
        a.group = group_index(gkey)
        a.order = (a.group, rank, sub)
        a.uid = len(ATOMS)
        ATOMS[k] = a
    return a


class Node:
    __slots__ = ('var', 'ch', 'term', 'fp', 'uid', 'nl')

    def __repr__(self):
        return show(self)


NODES = {}
LEAVES = {}
_uid = [0]


def leaf(t):
    n = LEAVES.get(t.fp)
    if n is None:
        n = Node()
        n.var = None
        n.ch = None
        n.term = t
        n.fp = t.fp
        n.nl = frozenset((t.fp,))
        n.uid = _uid[0] = _uid[0] + 1
        LEAVES[t.fp] = n
    return n


def implied(v, b, w):
    """outcome of atom w (same group, later in order) given v has outcome b; None if open"""
    if v.kind == 'sgn' and w.kind == 'sgn':
        if b == 0:      # x < v.c <= w.c
            return 0
        if b == 1:
            return 0 if v.c < w.c else (1 if v.c == w.c else 2)
        return None if w.c > v.c else 2
    if v.kind == 'cut' and w.kind == 'cut':
        if b == 0:
            return 0 if w.c >= v.c else None
        return 1 if w.c <= v.c else None
    if v.kind == 'eq' and b == 1:
        if w.kind == 'eq':
            return 1 if w.data[1] is v.data[1] else 0
        if w.kind == 'truthy':
            k = v.data[1]
            if k.kind == 'const':
                return int(bool(k.args))
            return 1
    return None


_restrict_memo = {}
FREE = {'sgn': 2, 'cut': 1, 'eq': 0}


def restrict(n, v, b):
    if n.var is None or n.var.group != v.group:
        return n
    key = (n.uid, v.uid, b)
    r = _restrict_memo.get(key)
    if r is not None:
        return r
    if n.var is v:
        r = restrict(n.ch[b], v, b)
    else:
        o = implied(v, b, n.var)
        if o is not None:
            r = restrict(n.ch[o], v, b)
        else:
            r = mk(n.var, [restrict(c, v, b) for c in n.ch])
    _restrict_memo[key] = r
    return r


def mk(var, ch):
    ch = tuple(restrict(c, var, i) for i, c in enumerate(ch))
    c0 = ch[0]
    if all(c is c0 for c in ch):
        return c0
    if var.kind == 'eq' and var.data[0].fp in ch[1].nl:
        # where it equals a constant, a value is written as that constant
        y = as_const(ch[1], *var.data)
        if as_const(c0, *var.data) is y:
            return c0
        ch = (c0, y)
    # a test whose outcome is already decided by the later tests of its group is redundant
    free = FREE.get(var.kind)
    if free is not None:
        g = ch[free]
        if g.var is not None and g.var.group == var.group and \
           all(i == free or restrict(g, var, i) is c for i, c in enumerate(ch)):
            return g
    key = (var.uid,) + tuple(c.uid for c in ch)
    n = NODES.get(key)
    if n is None:
        Budget.tick()
        n = Node()
        n.var = var
        n.ch = ch
        n.term = None
        n.fp = H('node', var.kind, var.order, akey(var), tuple(c.fp for c in ch))
        s = frozenset().union(*[c.nl for c in ch])
        n.nl = s
        n.uid = _uid[0] = _uid[0] + 1
        NODES[key] = n
    return n


_asconst_memo = {}


def as_const(n, t, k):
    """n with its results t replaced by the constant k"""
    if t.fp not in n.nl:
        return n
    if n.var is None:
        return leaf(k)
    key = (n.uid, t.uid, k.uid)
    r = _asconst_memo.get(key)
    if r is None:
        r = _asconst_memo[key] = mk(n.var, [as_const(c, t, k) for c in n.ch])
    return r


def akey(v):
    d = v.data
    if v.kind in ('sgn', 'cut'):
        return (d.fp, str(v.c))
    if v.kind == 'eq':
        return (d[0].fp, d[1].fp)
    return (d.fp,)


def top(nodes):
    best = None
    for n in nodes:
        if n.var is not None and (best is None or n.var.order < best.order):
            best = n.var
    return best


def cof(n, v, i):
    if n.var is v:
        return n.ch[i]
    if n.var is not None and n.var.group == v.group:
        return restrict(n, v, i)
    return n


_case_memo = {}


def case(var, chs):
    """decision on var with arbitrary (unordered) result nodes"""
    c0 = chs[0]
    if all(c is c0 for c in chs):
        return c0
    tv = top(chs)
    if tv is None or var.order < tv.order:
        return mk(var, chs)
    key = (var.uid,) + tuple(c.uid for c in chs)
    r = _case_memo.get(key)
    if r is not None:
        return r
    if tv is var:
        r = mk(var, [cof(c, var, i) for i, c in enumerate(chs)])
    else:
        Budget.tick()
        r = mk(tv, [case_c(var, [cof(c, tv, j) for c in chs], tv, j) for j in range(tv.arity)])
    _case_memo[key] = r
    return r


def case_c(var, chs, tv, j):
    # tv (outer) may imply the outcome of var
    if var.group == tv.group:
        o = implied(tv, j, var)
        if o is not None:
            return chs[o]
    return case(var, chs)


def bind(f, nodes, memo=None):
    """apply f (Terms -> Node) leafwise over the decision structure of nodes"""
    if memo is None:
        memo = {}
    return _bind(f, tuple(nodes), memo)


def _bind(f, nodes, memo):
    key = tuple(n.uid for n in nodes)
    r = memo.get(key)
    if r is not None:
        return r
    v = top(nodes)
    if v is None:
        r = f(*[n.term for n in nodes])
    else:
        Budget.tick()
        r = case(v, [_bind(f, tuple(cof(n, v, i) for n in nodes), memo) for i in range(v.arity)])
    memo[key] = r
    return r


TRUE = leaf(const(True))
FALSE = leaf(const(False))
NONE = leaf(const(None))
BOT = leaf(sym('#undef'))
CUT = leaf(sym('#cut'))      # path outside the loop bound, or leaving by an exception


def L(v):
    return leaf(const(v))


_ite_memo = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c.uid, a.uid, b.uid)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    v = top((c, a, b))
    if v is None:
        raise AssertionError('ite on non-boolean %r' % c)
    Budget.tick()
    r = mk(v, [ite(cof(c, v, i), cof(a, v, i), cof(b, v, i)) for i in range(v.arity)])
    _ite_memo[key] = r
    return r


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


def leaves(n):
    return [LEAVES[fp] for fp in n.nl]


def is_leaf(n):
    return n.var is None


def allbool(n):
    return all(fp == TRUE.fp or fp == FALSE.fp for fp in n.nl)


# ---------------------------------------------------------------- comparison atoms
def linform(d):
    """d Term -> (L Term, threshold, flip, isint): d < 0 <=> (L < thr) (or > if flip)"""
    p = d.poly
    if p is None:
        nfp = (-d.fp) % P
        if d.fp <= nfp:
            return d, Fraction(0), False, False
        return t_neg(d), Fraction(0), True, False
    cst = p.get((), Fraction(0))
    rest = [(m, c) for m, c in p.items() if m != ()]
    rest.sort(key=lambda mc: tuple(sorted((BYUID[u].fp, e) for u, e in mc[0])))
    lead = rest[0][1]
    isint = all(BYUID[u].isint for m, _ in rest for u, e in m) and all(e > 0 for m, _ in rest for u, e in m)
    scale = lead
    if isint:
        from math import gcd
        den = 1
        for _, c in rest:
            den = den * c.denominator // gcd(den, c.denominator)
        g = 0
        for _, c in rest:
            g = gcd(g, int(c * den))
        scale = Fraction(g, den) * (1 if lead > 0 else -1)
    Lp = {m: c / scale for m, c in rest}
    t = None
    for m, c in Lp.items():
        mt = num(c)
        for u, e in m:
            x = BYUID[u]
            for _ in range(abs(e)):
                mt = t_mul(mt, x) if e > 0 else t_div(mt, x)
        t = mt if t is None else t_add(t, mt)
    return t, -cst / scale, scale < 0, isint


def sign_case(d, lt, eq, gt):
    """decision on the sign of numeric term d"""
    d = numeric(d)
    v = numval(d)
    if v is not None:
        return lt if v < 0 else (eq if v == 0 else gt)
    Lf, thr, flip, isint = linform(d)
    if flip:
        lt, gt = gt, lt
    if isint:
        import math
        # integer linear form: cuts at half-integers
        lo = math.ceil(thr) - Fraction(1, 2)
        hi = math.floor(thr) + Fraction(1, 2)
        if thr.denominator != 1:
            a = mkatom('cut', ('n', Lf.fp), 0, lo, Lf, 2, lo)
            return case(a, [lt, gt])
        a1 = mkatom('cut', ('n', Lf.fp), 0, lo, Lf, 2, lo)
        a2 = mkatom('cut', ('n', Lf.fp), 0, hi, Lf, 2, hi)
        return case(a1, [lt, case(a2, [eq, gt])])
    a = mkatom('sgn', ('n', Lf.fp), 0, thr, Lf, 3, thr)
    return case(a, [lt, eq, gt])


def eq_case(t, k, no, yes):
    """t == constant-like k"""
    if isconst(t):
        return yes if t is k else no
    if t.kind in ('obj', 'list', 'tuple', 'dict', 'set', 'closure', 'strcat'):
        if k.kind in ('const', 'class', 'func', 'ext', 'num') and t.kind != 'strcat':
            return no
    a = mkatom('eq', ('e', t.fp), 0, k.fp, (t, k), 2)
    return case(a, [no, yes])


def truthy_case(t, no, yes):
    if t.kind == 'const':
        return yes if t.args else no
    if t.kind == 'num':
        return yes if t.args else no
    if t.kind in ('class', 'func', 'ext', 'closure'):
        return yes
    if t.kind in ('tuple', 'list', 'dict', 'set'):
        n = len(t.args)
        return yes if n else no
    a = mkatom('truthy', ('e', t.fp), 1, 0, t, 2)
    return case(a, [no, yes])


# ---------------------------------------------------------------- printing
def show_term(t, d=4):
    k = t.kind
    if k == 'const':
        return repr(t.args)
    if k == 'num':
        f = t.args
        return str(f.numerator) if f.denominator == 1 else repr(float(f))
    if k in ('sym', 'class', 'func', 'ext', 'code'):
        return str(t.args)
    if d <= 0:
        return '..'
    if k in ('poly', 'big'):
        op, a, b = t.args
        return '(%s %s %s)' % (show_term(a, d - 1), op, show_term(b, d - 1))
    if k == 'inv':
        return '1/(%s)' % show_term(t.args[0], d - 1)
    if k in ('list', 'tuple', 'set', 'trace'):
        return '%s[%s]' % (k[0], ', '.join(show(a, d - 1) for a in t.args))
    if k == 'dict':
        return '{%s}' % ', '.join('%s: %s' % (show(a, d - 1), show(b, d - 1)) for a, b in t.args)
    if k == 'strcat':
        return 's"%s"' % ''.join((p.term.args if (p.var is None and p.term.kind == 'const' and isinstance(p.term.args, str)) else '{%s}' % show(p, d - 1)) for p in t.args)
    if k in ('attr',):
        return '%s.%s%s' % (show(t.args[1], d - 1), t.args[0], "'" if len(t.args) > 2 else '')
    if k == 'sel':
        return '%s[%s]' % (show(t.args[1], d - 1), show(t.args[2], d - 1))
    if isinstance(t.args, tuple) and t.args and isinstance(t.args[0], str):
        return '%s(%s)' % (t.args[0] if k == 'app' else k + ':' + t.args[0], ', '.join(show(a, d - 1) for a in t.args[1:] if isinstance(a, Node)))
    return '%s:%s' % (k, t.args)


def show_atom(a, d=3):
    if a.kind in ('sgn', 'cut'):
        return '%s ? %s' % (show_term(a.data, d), a.c if a.c.denominator == 1 else float(a.c))
    if a.kind == 'eq':
        return '%s == %s' % (show_term(a.data[0], d), show_term(a.data[1], d))
    return show_term(a.data, d)


def show(n, d=4):
    if n.var is None:
        return show_term(n.term, d)
    if d <= 0:
        return '<..>'
    return '<%s | %s>' % (show_atom(n.var, d - 1), ' | '.join(show(c, d - 1) for c in n.ch))
