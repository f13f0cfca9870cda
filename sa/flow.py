"""Gated value-flow analysis of one function: joins are merged with gates, exits are guarded,
helpers inlined, loops peeled K times.  Produces a Summary of observable effects."""
import ast
import re
from fractions import Fraction

from .terms import (Blowup, Budget, BOT, CUT, FALSE, H, L, NONE, TRUE, Node, Term, _new, TERMS, allbool, and_, bind, case, const, eq_case, isconst, ite, leaf,
                    leaves, mkapp, not_, num, numeric, numval, or_, sign_case, sym, t_add, t_div, t_mul, t_neg, t_sub, truthy_case)
from .world import MUTATORS, BUILTIN_EXC, ext_effect
from .cfront import CFor

DIST_LIMIT = 24
BOOL_EXT = {'numpy.allclose', 'numpy.array_equal', 'numpy.isscalar', 'math.isnan', 'math.isclose', 'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'callable', 'issubclass',
            'numpy.issubdtype', 'hasattr'}
UNDEF = BOT


def app(name, *args, isint=False):
    return leaf(mkapp('app', name, args, isint=isint))


def seqterm(kind, items):
    items = tuple(items)
    fp = H(kind, tuple(i.fp for i in items))
    t = TERMS.get(fp)
    return t or _new(kind, items, fp)


def dictterm(items):
    items = tuple(items)
    fp = H('dict', tuple(sorted((k.fp, v.fp) for k, v in items)))
    t = TERMS.get(fp)
    return t or _new('dict', items, fp)


def named(kind, name):
    fp = H(kind, name)
    t = TERMS.get(fp)
    return t or _new(kind, name, fp)


def unionleafcount(nodes):
    c = 1
    for n in nodes:
        c *= len(n.nl)
    return c


def dist(kind, name, args, isint=False, keep=()):
    """application distributed over the gates of its arguments (bounded)"""
    args = tuple(args)
    di = [i for i, a in enumerate(args) if a.var is not None and i not in keep and not allbool(a)]
    if not di:
        return leaf(mkapp(kind, name, args, isint=isint))
    if unionleafcount([args[i] for i in di]) > DIST_LIMIT:
        return leaf(mkapp(kind, name, args, isint=isint))

    def f(*ts):
        a = list(args)
        for i, t in zip(di, ts):
            a[i] = leaf(t)
        return leaf(mkapp(kind, name, tuple(a), isint=isint))
    return bind(f, [args[i] for i in di])


def gate(v):
    """a gated value as an atom of arithmetic"""
    return v.term if v.var is None else mkapp('gate', '', (v,))


def strcat(parts):
    """parts: Nodes; flatten constants"""
    out = []
    for p in parts:
        if p.var is None and p.term.kind == 'strcat':
            sub = p.term.args
        else:
            sub = (p,)
        for q in sub:
            if q.var is None and q.term.kind == 'const' and isinstance(q.term.args, str):
                if q.term.args == '':
                    continue
                if out and out[-1].var is None and out[-1].term.kind == 'const' and isinstance(out[-1].term.args, str):
                    out[-1] = L(out[-1].term.args + q.term.args)
                    continue
            out.append(q)
    if not out:
        return L('')
    if len(out) == 1 and out[0].var is None and (out[0].term.kind == 'const' and isinstance(out[0].term.args, str) or out[0].term.fp in STRINGS):
        return out[0]
    return leaf(seqterm('strcat', out))


STRINGS = {sym('$' + n).fp for n in ('attr',)}     # parameters that are names


def strlift(f, nodes):
    if unionleafcount([n for n in nodes if n.var is not None]) > DIST_LIMIT:
        return f(*nodes)
    return bind(lambda *ts: f(*[leaf(t) for t in ts]), nodes)


def local_names(f):
    r = getattr(f, '_locals', None)
    if r is None or r[0] is not f.node:
        node = f.node
        out, glob = set(), set()

        def walk(x):
            for y in ast.iter_child_nodes(x):
                if isinstance(y, (ast.FunctionDef, ast.ClassDef)):
                    out.add(y.name)
                    continue
                if isinstance(y, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                    out.add(y.id)
                elif isinstance(y, ast.ExceptHandler) and y.name:
                    out.add(y.name)
                elif isinstance(y, (ast.Global, ast.Nonlocal)):
                    glob.update(y.names)
                walk(y)
        walk(node)
        r = (node, out - glob)
        try:
            f._locals = r
        except AttributeError:
            pass
    return r[1]


_has_obj = {}


def has_obj(x):
    """does a term mention a locally created object by identity"""
    if isinstance(x, Node):
        key = ('n', x.uid)
    else:
        if x.kind == 'obj':
            return True
        key = x.uid
    r = _has_obj.get(key)
    if r is None:
        _has_obj[key] = False
        if isinstance(x, Node):
            r = has_obj(x.term) if x.var is None else any(has_obj(c) for c in x.ch)
        else:
            r = isinstance(x.args, tuple) and any(has_obj(y) for y in x.args if isinstance(y, Node))
        _has_obj[key] = r
    return r


class State:
    __slots__ = ('env', 'heap', 'live', 'path')

    def __init__(self, env, heap, live=TRUE, path=TRUE):
        self.env, self.heap, self.live, self.path = env, heap, live, path

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.live, self.path)


class Exit:
    __slots__ = ('kind', 'target', 'guard', 'env', 'heap', 'value')

    def __init__(self, kind, target, guard, env, heap, value):
        self.kind, self.target, self.guard, self.env, self.heap, self.value = kind, target, guard, env, heap, value


class Frame:
    def __init__(self, func, module, selfcls, env=None, closure=None):
        self.func, self.module, self.selfcls, self.closure = func, module, selfcls, closure
        self.trys = []
        self.loops = []
        self.globals_decl = set()
        self.cur_exc = None


class TryCtx:
    def __init__(self, handlers):
        self.handlers = handlers
        self.hit = set()


class LoopCtx:
    pass


class Summary:
    def __init__(self):
        self.obs = {}
        self.unknown = []
        self.info = {}
        self.inlined = set()
        self.calls = 0
        self.exts = set()
        self.covered = set()      # statements that were evaluated on some path


EMPTYTRACE = leaf(seqterm('trace', ()))
COMMUTING_NUMPY_NAMES = {}

EXT_ALIAS = {
    'math.fabs': 'abs', 'numpy.abs': 'abs', 'numpy.absolute': 'abs', 'numpy.fabs': 'abs', 'fabs': 'abs', 'fabsf': 'abs',
    'math.sqrt': 'sqrt', 'numpy.sqrt': 'sqrt', 'math.cos': 'cos', 'numpy.cos': 'cos', 'math.sin': 'sin', 'numpy.sin': 'sin', 'math.tan': 'tan', 'numpy.tan': 'tan',
    'math.exp': 'exp', 'numpy.exp': 'exp', 'math.log': 'log', 'numpy.log': 'log', 'math.floor': 'floor', 'numpy.floor': 'floor', 'math.pow': 'pow', 'numpy.power': 'pow',
    'math.acos': 'acos', 'numpy.arccos': 'acos', 'math.asin': 'asin', 'numpy.arcsin': 'asin', 'math.atan2': 'atan2', 'numpy.arctan2': 'atan2',
    'math.radians': 'radians', 'numpy.radians': 'radians', 'numpy.deg2rad': 'radians', 'math.ceil': 'ceil', 'numpy.ceil': 'ceil',
    'numpy.minimum': 'min', 'numpy.maximum': 'max', 'numpy.logical_and': 'and2', 'numpy.logical_or': 'or2', 'numpy.logical_not': 'not1', 'numpy.bitwise_and': 'and2', 'numpy.bitwise_or': 'or2', 'numpy.invert': 'not1',
    'math.isnan': 'isnan', 'numpy.isnan': 'isnan', 'os.path.join': 'os.path.join', 'numpy.asarray': 'numpy.array', 'numpy.amin': 'numpy.min', 'numpy.amax': 'numpy.max',
}
BUILTINS = {'len', 'abs', 'min', 'max', 'sum', 'any', 'all', 'range', 'enumerate', 'zip', 'reversed', 'sorted', 'list', 'tuple', 'dict', 'set', 'str', 'int', 'float', 'bool',
            'isinstance', 'hasattr', 'getattr', 'setattr', 'type', 'print', 'super', 'map', 'filter', 'round', 'pow', 'repr', 'open', 'iter', 'next', 'callable', 'id', 'vars', 'globals', 'exec', 'compile',
            'object', 'property', 'staticmethod', 'classmethod', 'slice', 'bytes', 'frozenset', 'divmod', 'issubclass', 'input', 'format', 'delattr', 'locals', 'dir', 'chr', 'ord', 'hash', 'complex'}
EXTCONST = {'numpy.pi': 'pi', 'math.pi': 'pi', 'numpy.nan': 'nan', 'numpy.NaN': 'nan', 'numpy.inf': 'inf', 'numpy.infty': 'inf', 'math.inf': 'inf', 'math.nan': 'nan', 'numpy.NAN': 'nan'}


def trivial(f):
    """a method that only documents itself or refuses"""
    for st in f.node.body:
        if isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        if isinstance(st, ast.Raise) and 'NotImplemented' in ast.dump(st):
            continue
        return False
    return True


def cat_terms(a, b):
    """list a followed by the members of b"""
    if b.kind in ('list', 'tuple', 'arr') and not b.args and a.kind != 'tuple':
        return leaf(a)
    if a.kind == 'list' and b.kind in ('list', 'tuple', 'arr'):
        return leaf(seqterm('list', a.args + b.args))
    if b.kind in ('tuple', 'arr') and a.kind != 'tuple':
        b = seqterm('list', b.args)
    if b.kind == 'app' and b.args[0] == 'concat' and all(x.var is None for x in b.args[1:]):
        r = cat_terms(a, b.args[1].term)
        if r.var is None:
            return cat_terms(r.term, b.args[2].term)
    if b.kind == 'list' and a.kind == 'app' and a.args[0] == 'concat' and a.args[2].var is None and a.args[2].term.kind == 'list':
        return leaf(mkapp('app', 'concat', (a.args[1], leaf(seqterm('list', a.args[2].term.args + b.args)))))
    return leaf(mkapp('app', 'concat', (leaf(a), leaf(b))))


class Analyzer:
    def __init__(self, world, vocab, deep=False, K=2, max_depth=8, opaque=(), transparent=(), noinline=(), opts=None):
        self.world = world
        self.vocab = vocab          # function names that count as primitives
        self.deep = deep
        self.K = K
        self.max_depth = max_depth
        self.stack = []
        self.frames = []
        self.exits = []
        self.closures = {}
        self.funcs = {}
        self.uid = 0
        self.generic_exc = {}
        self.sum = Summary()
        self.noinline = set(noinline)
        self.opts = opts or {}
        self.types = {}      # term fp -> Class
        self.reifying = set()

    # ============================================================== heap
    def hdefault(self, heap, key):
        k = key[0]
        if k == 'a':
            ver = self.hget(heap, ('v', key[2])) if heap else None
            o = leaf(TERMS[key[1]])
            if ver is None:
                return leaf(mkapp('attr', key[2], (o,)))
            return leaf(mkapp('attr', key[2], (o, ver)))
        if k == 'i':
            return leaf(TERMS[key[1]])
        if k == 'v':
            return None
        if k == 't':
            return EMPTYTRACE
        if k == 'g':
            return None
        raise KeyError(key)

    def hget(self, heap, key):
        v = heap.get(key)
        if v is None:
            if key[0] == 'v':
                v = heap.get(('v', '*'))
                return v
            return self.hdefault(heap, key)
        return v

    # ============================================================== joins
    def merge(self, c, s1, s2):
        """state under c is s1 else s2 (lives relative to the region)"""
        if s1.live is FALSE:
            s2.live = and_(not_(c), s2.live)
            return s2
        if s2.live is FALSE:
            s1.live = and_(c, s1.live)
            return s1
        env = {}
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k), s2.env.get(k)
            if a is b:
                env[k] = a
            else:
                env[k] = ite(c, a if a is not None else UNDEF, b if b is not None else UNDEF)
        heap = self.mergeheap(c, s1.heap, s2.heap)
        return State(env, heap, ite(c, s1.live, s2.live), TRUE)

    def mergeheap(self, c, h1, h2):
        if h1 is h2:
            return h1
        heap = {}
        for k in set(h1) | set(h2):
            a, b = h1.get(k), h2.get(k)
            if a is b:
                heap[k] = a
                continue
            if (a is None or b is None) and k[0] == 'i' and TERMS[k[1]].kind == 'obj':
                heap[k] = a if b is None else b      # the object does not exist on the other side
                continue
            if a is None:
                a = self.hget(h1, k)
            if b is None:
                b = self.hget(h2, k)
            if a is None or b is None:
                z = leaf(sym('#v0'))
                a = a if a is not None else z
                b = b if b is not None else z
            if a is b:
                heap[k] = a
                continue
            heap[k] = ite(c, a, b)
        return heap

    def join(self, items):
        """items: list of (guard, env, heap), guards disjoint"""
        items = [i for i in items if i[0] is not FALSE]
        if not items:
            return State({}, {}, FALSE, TRUE)
        g, env, heap = items[0]
        st = State(dict(env), dict(heap), g, TRUE)
        for g2, env2, heap2 in items[1:]:
            e = {}
            for k in set(st.env) | set(env2):
                a, b = env2.get(k), st.env.get(k)
                e[k] = a if a is b else ite(g2, a if a is not None else UNDEF, b if b is not None else UNDEF)
            st = State(e, self.mergeheap(g2, heap2, st.heap), or_(g2, st.live), TRUE)
        return st

    def fork(self, cond, ft, ff):
        """evaluate ft under cond and ff otherwise; merge; return merged value (or None)"""
        st = self.st
        if cond is TRUE:
            return ft()
        if cond is FALSE:
            return ff()
        pt = self.pathand(st.path, cond)
        if pt is FALSE:
            return ff()
        pf = self.pathand(st.path, not_(cond))
        if pf is FALSE:
            return ft()
        outer = st.live
        s1 = st.copy()
        s2 = st.copy()
        s1.live = s2.live = TRUE
        s1.path, s2.path = pt, pf
        n0 = len(self.exits)
        self.st = s1
        v1 = ft()
        s1 = self.st
        g = and_(outer, cond)
        for e in self.exits[n0:]:
            e.guard = and_(g, e.guard)
        n1 = len(self.exits)
        self.st = s2
        v2 = ff()
        s2 = self.st
        g = and_(outer, not_(cond))
        for e in self.exits[n1:]:
            e.guard = and_(g, e.guard)
        m = self.merge(cond, s1, s2)
        m.live = and_(outer, m.live)
        m.path = self.pathand(st.path, m.live) if m.live is not FALSE else FALSE
        self.st = m
        if v1 is None and v2 is None:
            return None
        if s1.live is FALSE:
            return v2
        if s2.live is FALSE:
            return v1
        return ite(cond, v1 if v1 is not None else UNDEF, v2 if v2 is not None else UNDEF)

    def pathand(self, p, c):
        r = and_(p, c)
        if r is FALSE:
            return r
        if self.size(r, 150) >= 150:
            return p
        return r

    def size(self, n, lim):
        seen = set()
        todo = [n]
        while todo:
            x = todo.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            if len(seen) >= lim:
                return lim
            if x.ch:
                todo.extend(x.ch)
        return len(seen)

    def region(self, fn):
        """run fn with relative live; fn may record exits; afterwards rescale"""
        outer = self.st.live
        self.st.live = TRUE
        n0 = len(self.exits)
        r = fn()
        if outer is not TRUE:
            for e in self.exits[n0:]:
                e.guard = and_(outer, e.guard)
        self.st.live = and_(outer, self.st.live)
        return r

    def take(self, n0, target, kinds):
        out, keep = [], []
        for e in self.exits[n0:]:
            (out if (e.target is target and e.kind in kinds) else keep).append(e)
        self.exits[n0:] = keep
        return out

    # ============================================================== entry
    def analyze(self, func, selfcls=None, args=None, heap=None):
        """summary of func with symbolic parameters"""
        self.st = State({}, dict(heap or {}))
        fr = Frame(func, func.module, selfcls or func.cls)
        self.frames.append(fr)
        env = self.st.env
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for i, n in enumerate(names):
            if args and n in args:
                env[n] = args[n]
                continue
            if n in (self.opts.get('bind') or {}):
                env[n] = self.default_value(self.opts['bind'][n], func.module)
                continue
            pn = (self.opts.get('pnames') or {}).get(n, n)
            t = sym('self' if (i == 0 and func.cls is not None and func.kind not in ('staticmethod', 'classmethod')) else
                    'cls' if (i == 0 and func.kind == 'classmethod') else '$' + pn,
                    isint=n in getattr(func, 'intparams', ()))
            if i == 0 and func.cls is not None and func.kind != 'staticmethod':
                if func.kind == 'classmethod':
                    self.types[t.fp] = fr.selfcls
                else:
                    self.types[t.fp] = fr.selfcls
            env[n] = leaf(t)
        if a.vararg:
            env[a.vararg.arg] = leaf(sym('$*' + a.vararg.arg))
        for x in a.kwonlyargs:
            if x.arg in (self.opts.get('bind') or {}):
                env[x.arg] = self.default_value(self.opts['bind'][x.arg], func.module)
                continue
            env[x.arg] = args[x.arg] if args and x.arg in args else leaf(sym('$' + x.arg))
        if a.kwarg:
            env[a.kwarg.arg] = leaf(sym('$**' + a.kwarg.arg))
        self.stack.append(func)
        self.block(func.node.body)
        self.stack.pop()
        self.frames.pop()
        return self.finish()

    def analyze_block(self, func, stmts, locals_, outs, selfcls=None):
        """summary of a statement list of func: unknown locals are symbols, outs are the locals read elsewhere"""
        self.st = State({}, {})
        fr = Frame(func, func.module, selfcls or func.cls)
        fr.globals_decl |= {n for x in ast.walk(func.node) if isinstance(x, ast.Global) for n in x.names}
        self.frames.append(fr)
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for n in locals_:
            first = bool(names) and n == names[0] and func.cls is not None and func.kind != 'staticmethod'
            t = sym(('cls' if func.kind == 'classmethod' else 'self') if first else '$' + (self.opts.get('pnames') or {}).get(n, n), isint=n in getattr(func, 'intparams', ()))
            if first:
                self.types[t.fp] = fr.selfcls
            self.st.env[n] = leaf(t)
        ctx = LoopCtx()
        fr.loops.append(ctx)
        self.stack.append(func)
        self.block(stmts)
        self.stack.pop()
        for e in self.exits:
            if e.kind in ('brk', 'cont') and e.target is ctx:
                e.value = leaf(named('code', 'loop:' + e.kind))
                e.kind = 'ret'
            elif e.kind == 'ret':
                e.value = leaf(seqterm('returning', (self.canon(self.reify_in(e.heap, e.value)),)))
        self.frames.pop()
        return self.finish(outs)

    def reify_in(self, heap, v):
        old = self.st
        self.st = State({}, heap)
        try:
            return self.reify(v)
        finally:
            self.st = old

    def finish(self, outs=()):
        st = self.st
        envs = [(e.guard, e.env) for e in self.exits if e.kind == 'ret' and e.value is not None and e.value.var is None and e.value.term.kind == 'code']
        if outs:
            if st.live is not FALSE:
                envs.append((st.live, st.env))
            for n in outs:
                v = CUT
                for (g, env), hp in zip(envs, [e.heap for e in self.exits if e.kind == 'ret' and e.value is not None and e.value.var is None and e.value.term.kind == 'code'] + [st.heap]):
                    v = ite(g, self.canon(self.reify_in(hp, env.get(n, UNDEF))), v)
                self.sum.obs['var:' + n] = v
        rets = [(e.guard, e.heap, e.value) for e in self.exits if e.kind == 'ret']
        if st.live is not FALSE:
            rets.append((st.live, st.heap, NONE))
        raises = [(e.guard, e.value) for e in self.exits if e.kind == 'raise']
        cover = FALSE
        for g, _, _ in rets:
            cover = or_(cover, g)
        out = CUT
        h = None
        for g, hp, v in rets:
            self.st = State({}, hp)
            v = self.canon(self.reify(v))
            out = ite(g, v, out)
            h = hp if h is None else self.mergeheap(g, hp, h)
        for g, v in raises:
            out = ite(g, v, out)
        S = self.sum
        S.cover = cover
        S.obs['ret'] = out
        for e in self.exits:
            if e.kind == 'exca' and e.guard is not FALSE:
                S.obs[e.value[0]] = ite(e.guard, e.value[1], S.obs.get(e.value[0], CUT))
        if h is not None:
            self.st = State({}, h)
            for k, v in h.items():
                if k[0] in ('v', 'g'):
                    continue
                if k[0] == 'i':
                    if TERMS[k[1]].kind == 'obj':
                        continue
                d = self.hdefault({}, k)
                if k[0] == 't':
                    val = v
                else:
                    val = self.canon(self.reify(v))
                if val is d:
                    continue
                val = ite(cover, val, CUT)
                if val is ite(cover, d, CUT):
                    continue
                S.obs[k] = val
        return S

    # ============================================================== reify
    def reify(self, v, depth=0):
        if v.var is None:
            return self.reify_term(v.term, depth)
        if all(TERMS[f].kind in ('const', 'num', 'sym', 'poly', 'big', 'class', 'func', 'ext') and ('i', f) not in self.st.heap for f in v.nl):
            return v
        return bind(lambda t: self.reify_term(t, depth), [v])

    def reify_term(self, t, depth):
        k = t.kind
        if k == 'obj':
            if depth > 6:
                return leaf(sym('#deep'))
            c = self.hget(self.st.heap, ('i', t.fp))
            return self.reify(c, depth + 1) if c.term is not t else leaf(sym('#emptyobj'))
        if k in ('tuple', 'list', 'set', 'arr'):
            if depth > 8:
                return leaf(sym('#deep'))
            return leaf(seqterm('tuple' if k == 'tuple' else k, [self.canon(self.reify(x, depth + 1)) for x in t.args]))
        if k == 'dict':
            return leaf(dictterm([(self.reify(a, depth + 1), self.canon(self.reify(b, depth + 1))) for a, b in t.args]))
        if k == 'closure':
            return self.closure_value(t)
        key = ('i', t.fp)
        if key not in self.st.heap and k in ('upd', 'updS', 'app', 'sel', 'new', 'call') and has_obj(t):
            if depth > 8:
                return leaf(sym('#deep'))
            r = lambda x: self.canon(self.reify(x, depth + 1))
            if k == 'upd':
                c = r(t.args[1])
                for a, b in t.extra.values():
                    c = self.stored(c, a, r(b))
                return c
            return leaf(mkapp(k, t.args[0], tuple(r(x) for x in t.args[1:]), isint=t.isint, extra=t.extra))
        if key in self.st.heap:
            c = self.st.heap[key]
            if c.var is None and c.term is t:
                return c
            if depth > 6:
                return leaf(sym('#deep'))
            if c.var is None and c.term.kind in ('list', 'dict', 'arr', 'set'):
                return self.reify(c, depth + 1)
            if has_obj(c) and ('i', c.fp) not in self.st.heap:
                # inside its own contents a container stands for what it held before
                if t.fp in self.reifying:
                    return leaf(t)
                self.reifying.add(t.fp)
                try:
                    return self.reify(c, depth + 1)
                finally:
                    self.reifying.discard(t.fp)
            return c
        return leaf(t)

    def canon(self, v):
        if v.var is None:
            return v
        ls = leaves(v)
        ks = {x.term.kind for x in ls}
        if ks == {'tuple'} or ks == {'arr'}:
            ns = {len(x.term.args) for x in ls}
            if len(ns) == 1 and 0 not in ns:
                n = ns.pop()
                try:
                    return leaf(seqterm(ks.pop(), [self.canon(bind(lambda t, i=i: t.args[i], [v])) for i in range(n)]))
                except Blowup:
                    raise
        return v

    def closure_value(self, t):
        node, env, fr = self.closures[t.args]
        key = ('cl', t.args)
        if key in self.stack:
            return leaf(sym('#rec'))
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        save = self.st.copy()
        n0 = len(self.exits)
        try:
            self.stack.append(key)
            self.st = self.st.copy()
            v = self.call_closure(t, [leaf(sym('#lam%d' % i)) for i in range(len(names))], {}, allow_missing=True)
            r = self.reify(v, 3)
        finally:
            self.stack.pop()
            self.st = save
            del self.exits[n0:]
        return app('lambda%d' % len(names), r)

    def fresh(self, content):
        self.uid += 1
        t = named('obj', 'o%d_%d' % (id(self), self.uid))
        self.st.heap[('i', t.fp)] = content
        return leaf(t)

    def content(self, t):
        """content node of a term used as container"""
        if t.kind in ('tuple', 'list', 'dict', 'set', 'arr'):
            return leaf(t)
        return self.hget(self.st.heap, ('i', t.fp))

    def contents(self, v):
        if v.var is None:
            return self.content(v.term)
        return bind(self.content, [v])

    # ============================================================== statements
    def block(self, stmts):
        for s in stmts:
            if self.st.live is FALSE:
                return
            self.sum.covered.add(id(s))
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.sum.unknown.append(type(s).__name__)
            return
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            v = self.ev(s.value.value) if s.value.value is not None else NONE
            self.trace('yield', [self.reify(v)], {'#yield'}, {'#yield'})
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        self.frames[-1].globals_decl |= set(s.names)

    def s_Nonlocal(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            self.st.env[a.asname or a.name.split('.')[0]] = self.imported(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s):
        from .world import Module
        tmp = Module('x', 'x', None)
        from .world import _collect_imports
        _collect_imports(tmp, [s], getattr(self.frames[-1].module, 'package', ''))
        for k, d in tmp.imports.items():
            self.st.env[k] = self.imported(d)

    def s_FunctionDef(self, s):
        self.st.env[s.name] = self.mkclosure(s)

    def s_ClassDef(self, s):
        self.st.env[s.name] = leaf(sym('localclass:' + s.name))

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        st = self.st
        if st.live is not FALSE:
            self.exits.append(Exit('ret', self.frames[-1], st.live, st.env, st.heap, v))
        self.st = State(st.env, st.heap, FALSE, FALSE)

    def s_Assign(self, s):
        if isinstance(s.value, ast.Tuple) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) \
           and len(s.targets[0].elts) == len(s.value.elts) and not any(isinstance(x, ast.Starred) for x in s.value.elts + s.targets[0].elts):
            vs = [self.ev(x) for x in s.value.elts]
            for t, v in zip(s.targets[0].elts, vs):
                self.assign(t, v)
            return
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        load = ast.copy_location(self.as_load(s.target), s.target)
        cur = self.ev(load)
        r = self.ev(s.value)
        # in-place list extension
        if isinstance(s.op, ast.Add) and cur.var is None and cur.term.kind == 'obj':
            c = self.content(cur.term)
            rc = self.contents(r)
            nc = bind(lambda a, b: cat_terms(a, b) if b.kind in ('list', 'tuple', 'arr') else bind(lambda b2: cat_terms(a, b2), [self.reify(leaf(b))]), [c, rc])
            self.st.heap[('i', cur.term.fp)] = nc
            return
        if isinstance(s.op, ast.Add) and r.var is None and r.term.kind == 'obj' and isinstance(s.value, (ast.List, ast.ListComp)) and \
           all(l.term.kind not in ('num', 'const', 'poly', 'big', 'tuple', 'arr', 'undef') for l in leaves(cur)):
            # += of a list display: the target is a list, which is extended in place
            rc = self.contents(r)
            for lf, g in self.guarded(cur):
                key = ('i', lf.term.fp)
                c = self.content(lf.term)
                nc = bind(lambda a, b: cat_terms(a, b) if b.kind == 'list' else bind(lambda b2: cat_terms(a, b2), [self.reify(leaf(b))]), [c, rc])
                self.st.heap[key] = nc if g is TRUE else ite(g, nc, c)
            return
        v = self.binop(s.op, cur, r)
        self.assign(s.target, v)

    def as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(t.id, ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(t.value, t.attr, ast.Load())
        if isinstance(t, ast.Subscript):
            return ast.Subscript(t.value, t.slice, ast.Load())
        return t

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                self.store_attr(o, t.attr, app('#deleted'))
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                i = self.index(t.slice)
                for lf, g in self.guarded(o):
                    def do(lf=lf):
                        c = self.content(lf.term)
                        def f(ct, it):
                            if ct.kind == 'dict' and any(k.fp == it.fp for k, _ in ct.args):
                                return leaf(dictterm([(k, v) for k, v in ct.args if k.fp != it.fp]))
                            return dist('app', 'delitem', [leaf(ct), leaf(it)])
                        self.st.heap[('i', lf.term.fp)] = bind(f, [c, i])
                    self.fork(g, do, lambda: None)

    def s_Assert(self, s):
        c = self.cond(s.test)
        self.fork(c, lambda: None, lambda: self.do_raise('AssertionError', None))

    def s_Raise(self, s):
        name = 'raise'
        if s.exc is None:
            name = self.frames[-1].cur_exc or 'reraise'
        else:
            e = s.exc
            if isinstance(e, ast.Call):
                f = e.func
                name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else 'raise'
                if isinstance(f, ast.Name) and f.id in self.st.env:
                    # local helper that builds the exception
                    name = 'raise'
            elif isinstance(e, ast.Name):
                name = e.id
                if name in self.st.env:
                    v = self.reify(self.st.env[name])
                    k = self.raised_class(v)
                    if k is None:
                        k = self.frames[-1].cur_exc
                    name = k or name
            elif isinstance(e, (ast.Constant, ast.JoinedStr, ast.BinOp)):
                name = 'TypeError'
        if isinstance(s.exc, ast.Call) and name != 'raise':
            self.exc_args(name, s.exc)
        self.do_raise(name, None)

    def raised_class(self, v):
        if v.var is not None:
            return None
        t = v.term
        if t.kind == 'class':
            return str(t.args[0]).replace('cls:', '')
        if t.kind == 'obj' or t.fp in self.types:
            c = self.types.get(t.fp)
            return c.name if c is not None else None
        if t.kind == 'new':
            return t.args[0]
        if t.kind in ('app', 'call') and t.args and isinstance(t.args[0], str):
            n = t.args[0]
            n = n[4:] if n.startswith('new:') else n[5:] if n.startswith('call:') else n
            if n in BUILTIN_EXC or n == 'Exception':
                return n
        return None

    def exc_args(self, name, call):
        """the data an exception of the analysed program carries (its message is not part of the behaviour)"""
        ct = self.reify(self.ev(call.func))
        c = self.world.classes.get(name)
        if c is None or ct.var is not None or ct.term.kind != 'class' or self.st.live is FALSE or any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return
        init = self.world.find_method(c, '__init__')
        if init is None:
            return
        names = [a.arg for a in init.node.args.args[1:]]
        got = {}
        for n, a in list(zip(names, call.args)) + [(k.arg, k.value) for k in call.keywords]:
            if isinstance(a, ast.JoinedStr) or (isinstance(a, ast.Constant) and isinstance(a.value, str)) or (isinstance(a, ast.BinOp) and isinstance(a.left, (ast.Constant, ast.JoinedStr, ast.BinOp))):
                continue
            got[n] = self.canon(self.reify(self.ev(a)))
        if self.st.live is FALSE:
            return
        for n in names:
            if n not in ('msg', 'message'):
                self.exits.append(Exit('exca', None, self.st.live, None, None, ('exc:%s.%s' % (name, n), got.get(n, UNDEF))))

    def do_raise(self, name, val):
        st = self.st
        if st.live is FALSE:
            return
        for fr in reversed(self.frames):
            for ctx in reversed(fr.trys):
                for i, (names, h) in enumerate(ctx.handlers):
                    if self.catches(names, name):
                        ctx.hit.add(i)
                        self.exits.append(Exit('exc', ctx, st.live, self.env_of(fr), st.heap, (i, app('excval', L(name)), name)))
                        self.st = State(st.env, st.heap, FALSE, FALSE)
                        return
        self.exits.append(Exit('raise', None, st.live, st.env, st.heap, leaf(named('code', 'raise:' + name))))
        self.st = State(st.env, st.heap, FALSE, FALSE)

    def env_of(self, fr):
        """environment of frame fr (the current one, or the saved one of a caller)"""
        if fr is self.frames[-1]:
            return self.st.env
        return fr.saved_env

    def catches(self, names, exc):
        if names is None:
            return True
        for n in names:
            if n in ('Exception', 'BaseException') or n == exc:
                return True
            if self.world.subclass_of(exc, n):
                return True
            b = BUILTIN_EXC.get(exc)
            while b:
                if b == n:
                    return True
                b = BUILTIN_EXC.get(b)
        return False

    def s_If(self, s):
        c = self.cond(s.test)
        self.fork(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            r = dist('app', 'enter', [self.reify(v)])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r)
        self.block(s.body)

    def s_Break(self, s):
        self.loop_exit('brk')

    def s_Continue(self, s):
        self.loop_exit('cont')

    def loop_exit(self, kind):
        st = self.st
        if st.live is not FALSE:
            self.exits.append(Exit(kind, self.frames[-1].loops[-1], st.live, st.env, st.heap, None))
        self.st = State(st.env, st.heap, FALSE, FALSE)

    def loop(self, steps, orelse):
        """steps: iterable of (exists_thunk, bind_thunk); each step = one peeled iteration"""
        fr = self.frames[-1]
        ctx = LoopCtx()
        fr.loops.append(ctx)
        n0 = len(self.exits)
        done = []     # (guard, env, heap) of normal completion

        def run():
            path0 = self.st.path
            for exists, body in steps:
                ex = exists()
                if self.st.live is FALSE:
                    break
                if body is None:      # cut: executions with more iterations are outside the bound
                    self.st.live = and_(self.st.live, not_(ex))
                    break
                if ex is FALSE:
                    break
                if ex is not TRUE:
                    g = and_(self.st.live, not_(ex))
                    if g is not FALSE:
                        done.append((g, self.st.env, self.st.heap))
                    self.st = State(dict(self.st.env), dict(self.st.heap), and_(self.st.live, ex), self.pathand(self.st.path, ex))
                n1 = len(self.exits)
                self.region(body)
                cont = self.take(n1, ctx, ('cont',))
                if cont:
                    items = [(e.guard, e.env, e.heap) for e in cont]
                    if self.st.live is not FALSE:
                        items.append((self.st.live, self.st.env, self.st.heap))
                    self.st = self.join(items)
                    self.st.path = path0
                if self.st.live is FALSE:
                    break
            if self.st.live is not FALSE:
                done.append((self.st.live, self.st.env, self.st.heap))
            st = self.join(done)
            st.path = path0
            self.st = st
            if orelse:
                self.block(orelse)
                st = self.st
            brk = self.take(n0, ctx, ('brk',))
            items = [(e.guard, e.env, e.heap) for e in brk]
            if st.live is not FALSE:
                items.append((st.live, st.env, st.heap))
            st2 = self.join(items)
            st2.path = path0
            if st2.live is FALSE:
                st2 = State(st.env, st.heap, FALSE, FALSE)
            self.st = st2
        self.region(run)
        fr.loops.pop()

    def cond_steps(self, test, body, inc, first):
        """peel a condition-controlled loop: iterations whose test is decided cost nothing, others at most K"""
        K = self.opts.get('whileK', self.K)
        lit = isinstance(test, ast.Constant)
        used = i = 0
        last = [None]

        def ex(i):
            if i and inc:
                self.block(inc)
            last[0] = TRUE if (first and i == 0) else self.cond(test)
            return last[0]
        while True:
            cut = used >= K or i >= 70
            yield (lambda i=i: ex(i)), (None if cut else (lambda: self.block(body)))
            if cut:
                return
            if lit or last[0] is not TRUE:
                used += 1
            i += 1

    def s_While(self, s):
        self.loop(self.cond_steps(s.test, s.body, None, False), s.orelse)

    def s_CFor(self, s):
        self.loop(self.cond_steps(s.test, s.body, s.inc, s.first), [])

    def s_For(self, s):
        it = self.ev(s.iter)
        self.loop(self.iter_steps(it, lambda elem: (self.assign(s.target, elem), self.block(s.body))), s.orelse)

    def iter_steps(self, it, body):
        n, fixed, exists, elem = self.iter_desc(it)
        lim = n if fixed else self.K
        for i in range(lim):
            yield (lambda i=i: exists(i)), (lambda i=i: body(elem(i)))
        if not fixed:
            yield (lambda: exists(lim)), None

    def iter_desc(self, it, raw=False):
        """-> (count, fixed?, exists(i) -> Node, elem(i) -> Node)"""
        if it.var is None and not raw:
            return self.iter_desc_term(it.term)
        descs = {}
        for lf in leaves(it):
            descs[lf.fp] = self.iter_desc_raw(lf.term) if raw else self.iter_desc_term(lf.term)
        fixed = all(d[1] for d in descs.values())
        n = max(d[0] for d in descs.values()) if fixed else self.K

        def exists(i):
            def f(t):
                d = descs[t.fp]
                if d[1]:
                    return TRUE if i < d[0] else FALSE
                return d[2](i)
            return bind(f, [it])

        def elem(i):
            def f(t):
                d = descs[t.fp]
                if d[1] and i >= d[0]:
                    return UNDEF
                return d[3](i)
            return bind(f, [it])
        return n, fixed, exists, elem

    def iter_desc_term(self, t):
        if t.kind == 'iter':
            return t.extra(self)
        c = self.content(t)
        if c.var is not None:
            return self.iter_desc(c, raw=True)
        return self.iter_desc_raw(c.term)

    def iter_desc_raw(self, ct):
        """ct: content term"""
        c = leaf(ct)
        if ct.kind == 'iter':
            return ct.extra(self)
        if ct.kind in ('list', 'tuple', 'set', 'arr'):
            items = ct.args
            return len(items), True, (lambda i: TRUE if i < len(items) else FALSE), (lambda i: items[i])
        if ct.kind == 'dict':
            items = ct.args
            return len(items), True, (lambda i: TRUE if i < len(items) else FALSE), (lambda i: items[i][0])
        if ct.kind == 'const' and isinstance(ct.args, str):
            items = [L(x) for x in ct.args]
            return len(items), True, (lambda i: TRUE if i < len(items) else FALSE), (lambda i: items[i])
        if ct.kind == 'app' and ct.args[0] == 'numpy.array' and len(ct.args) == 2 and ct.args[1].var is None and ct.args[1].term.kind == 'list':
            return self.iter_desc_term(ct.args[1].term)
        if ct.kind == 'app' and ct.args[0] == 'list' and len(ct.args) == 2 and ct.args[1].var is None:
            return self.iter_desc_raw(ct.args[1].term)
        x = c
        ln = app('len', x, isint=True)
        return self.K, False, (lambda i: sign_case(t_sub(ln.term, num(i)), FALSE, FALSE, TRUE)), (lambda i: self.sel(x, L(i)))

    def mkiter(self, name, args, desc):
        fp = H('iter', name, tuple(a.fp for a in args))
        t = TERMS.get(fp)
        if t is None:
            t = _new('iter', (name,) + tuple(args), fp)
        t.extra = desc
        return leaf(t)

    def s_Try(self, s):
        fr = self.frames[-1]
        handlers = []
        for h in s.handlers:
            if h.type is None:
                handlers.append((None, h))
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                handlers.append(([x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else '?' for x in ts], h))
        ctx = TryCtx(handlers)
        pre = self.st.copy()
        pre.live = TRUE

        def run():
            n0 = len(self.exits)
            path0 = self.st.path
            fr.trys.append(ctx)
            if s.handlers:
                # handlers with no modelled raising point: a generic one at the start
                self.block(s.body)
            else:
                self.block(s.body)
            fr.trys.pop()
            if s.orelse and self.st.live is not FALSE:
                self.block(s.orelse)
            excs = self.take(n0, ctx, ('exc',))
            norm = (self.st.live, self.st.env, self.st.heap)
            items = []
            generic = FALSE
            for i, (names, h) in enumerate(handlers):
                if i not in ctx.hit:
                    nm = '|'.join(names or ['any'])
                    self.generic_exc[nm] = self.generic_exc.get(nm, 0) + 1
                    k = named('code', 'exc:' + nm)
                    gt = mkapp('app', 'exckind', (L('generic'), leaf(sym(nm))))
                    gcond = eq_case(gt, k, FALSE, TRUE)
                    excs.append(Exit('exc', ctx, gcond, pre.env, pre.heap, (i, app('excval', leaf(k)), nm)))
                    generic = or_(generic, gcond)
            if generic is not FALSE:
                ng = not_(generic)
                norm = (and_(ng, norm[0]), norm[1], norm[2])
                for e in self.exits[n0:]:
                    e.guard = and_(ng, e.guard)
                for e in excs:
                    if not (e.guard is generic) and e.value[0] in ctx.hit:
                        e.guard = and_(ng, e.guard)
            if norm[0] is not FALSE:
                items.append(norm)
            for i, (names, h) in enumerate(handlers):
                mine = [e for e in excs if e.value[0] == i]
                mine = [e for e in mine if e.guard is not FALSE]
                if not mine:
                    continue
                st = self.join([(e.guard, e.env, e.heap) for e in mine])
                ev = UNDEF
                for e in mine:
                    ev = ite(e.guard, e.value[1], ev)
                outer = st.live
                self.st = State(st.env, st.heap, TRUE, path0)
                if h.name:
                    self.st.env[h.name] = ev
                n1 = len(self.exits)
                old = fr.cur_exc
                fr.cur_exc = mine[0].value[2]
                self.block(h.body)
                fr.cur_exc = old
                for e in self.exits[n1:]:
                    e.guard = and_(outer, e.guard)
                if self.st.live is not FALSE:
                    items.append((and_(outer, self.st.live), self.st.env, self.st.heap))
            st = self.join(items)
            if st.live is FALSE:
                st = State(self.st.env, self.st.heap, FALSE, FALSE)
            else:
                st.path = path0
            self.st = st
            if s.finalbody and self.st.live is not FALSE:
                self.block(s.finalbody)
        self.region(run)

    s_TryStar = s_Try

    def may_raise(self, callnode):
        """opaque call inside try: each handler may be entered at this point"""
        fr = self.frames[-1]
        ctx = None
        for f in reversed(self.frames):
            if f.trys:
                ctx = f.trys[-1]
                fr = f
                break
        if ctx is None or not ctx.handlers or self.st.live is FALSE:
            return
        for i, (names, h) in enumerate(ctx.handlers):
            nm = '|'.join(names or ['any'])
            k = named('code', 'exc:' + nm)
            kt = mkapp('app', 'exckind', (callnode,))
            g = eq_case(kt, k, FALSE, TRUE)
            st = self.st
            ctx.hit.add(i)
            self.exits.append(Exit('exc', ctx, and_(st.live, g), dict(self.env_of(fr)), dict(st.heap), (i, app('excval', callnode), nm)))
            self.st = State(st.env, st.heap, and_(st.live, not_(g)), st.path)

    # ============================================================== assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.frames[-1].globals_decl:
                self.st.heap[('a', named('sym', 'mod:globals').fp if False else sym('#globals').fp, t.id)] = v
                return
            if t.id in getattr(self.frames[-1].func, 'f32vars', ()):
                v = self.f32(v)
            self.st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.store_attr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.index(t.slice)
            self.store_item(o, i, v, t.value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            c = self.contents(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, dist('app', 'unpack*', [self.reify(v), L(i), L(n)]))
                elif star and i > star[0]:
                    self.assign(x, self.sel(c, L(i - n)))
                else:
                    self.assign(x, self.sel(c, L(i)))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def f32(self, v):
        return bind(lambda t: leaf(t) if t.kind == 'num' and float(t.args) == t.args else leaf(mkapp('app', 'f32', (leaf(t),))) if not (t.kind == 'app' and t.args[0] == 'f32') else leaf(t), [v])

    def guarded(self, o):
        """[(leafnode, guard)] of a value"""
        if o.var is None:
            return [(o, TRUE)]
        out = []
        for lf in leaves(o):
            g = bind(lambda t: TRUE if t.fp == lf.fp else FALSE, [o])
            out.append((lf, g))
        return out

    def store_attr(self, o, attr, v):
        for lf, g in self.guarded(o):
            if lf is UNDEF:
                continue
            cls = self.types.get(lf.term.fp)
            if cls is not None:
                setter = None
                for c in self.world.mro(cls):
                    if attr in c.setters and c.setters[attr].kind == 'setter':
                        setter = c.setters[attr]
                        break
                if setter is not None and (self.deep or attr not in self.opts.get('props', ())) and setter not in self.stack and attr not in self.vocab:
                    self.fork(g, lambda: self.inline(setter, [lf, v], {}, cls), lambda: None)
                    continue
            key = ('a', lf.term.fp, attr)
            if g is TRUE:
                self.st.heap[key] = v
            else:
                self.st.heap[key] = ite(g, v, self.hget(self.st.heap, key))

    def store_item(self, o, idx, v, expr=None):
        for lf, g in self.guarded(o):
            if lf is UNDEF:
                continue
            t = lf.term
            if t.kind == 'app' and t.args[0] == 'addr':
                # element pointer: write through to the array it points into
                base, off = t.args[1], self.binop(ast.Add(), t.args[2], idx)
                if g is TRUE:
                    self.store_item(base, off, v)
                else:
                    self.fork(g, lambda: self.store_item(base, off, v), lambda: None)
                continue
            if t.kind in ('sel',) and t.kind != 'obj' and len(t.args) == 3:
                # nested container: write through to the outer one so that both views agree
                pass
            key = ('i', t.fp)
            c = self.hget(self.st.heap, key)
            nc = self.stored(c, idx, v)
            self.st.heap[key] = nc if g is TRUE else ite(g, nc, c)

    def stored(self, c, idx, v):
        if idx.var is None and idx.term.kind == 'tuple' and not any(x.var is None and x.term.kind == 'slice' for x in idx.term.args) and len(idx.term.args) > 1 \
           and not any(x.var is not None and allbool(x) for x in idx.term.args):
            i0 = idx.term.args[0]
            rest = idx.term.args[1:]
            inner = self.sel(c, i0)
            ri = rest[0] if len(rest) == 1 else leaf(seqterm('tuple', rest))
            ninner = self.stored(self.contents(inner) if inner.var is None else inner, ri, v)
            return self.stored(c, i0, ninner)
        v = self.reify_light(v)
        if idx.var is not None and allbool(idx):
            return bind(lambda ct: leaf(mkapp('updS', '', (leaf(ct), idx, v))), [c])

        def f(ct, it):
            if ct.kind in ('list', 'arr'):
                k = numval(it)
                if k is not None and k.denominator == 1 and -len(ct.args) <= k < len(ct.args):
                    a = list(ct.args)
                    a[int(k)] = v
                    return leaf(seqterm(ct.kind, a))
                if it.kind == 'slice':
                    rng = self.slice_range(it, len(ct.args))
                    if rng is not None:
                        a = list(ct.args)
                        vc = self.contents(v)
                        for j, pos in enumerate(rng):
                            if vc.var is None and vc.term.kind not in ('list', 'arr', 'tuple'):
                                a[pos] = v
                            else:
                                a[pos] = self.sel(vc, L(j))
                        return leaf(seqterm(ct.kind, a))
            if ct.kind == 'dict':
                items = list(ct.args)
                for j, (k, _) in enumerate(items):
                    if k.fp == it.fp:
                        items[j] = (k, v)
                        break
                else:
                    items.append((leaf(it), v))
                return leaf(dictterm(items))
            same = self.sel_term(ct, it)
            if same.var is None and same.term.kind == 'sel' and any(l.term is same.term for l in leaves(v)):
                # storing what is already there changes nothing
                return bind(lambda vt: leaf(ct) if vt is same.term else put(ct, it, leaf(vt)), [v])
            return put(ct, it, v)

        def put(ct, it, v):
            if isconst(it):
                if ct.kind == 'upd':
                    base, items = ct.args[1], dict(ct.extra)
                else:
                    base, items = leaf(ct), {}
                items[it.fp] = (leaf(it), v)
                ks = sorted(items)
                fp = H('upd', base.fp, tuple((k, items[k][1].fp) for k in ks))
                t = TERMS.get(fp)
                if t is None:
                    t = _new('upd', ('upd', base) + tuple(x for k in ks for x in items[k]), fp, extra=items)
                return leaf(t)
            if ct.kind == 'updS' and ct.args[2].fp == it.fp:
                if ct.args[1].var is not None:
                    return leaf(mkapp('updS', '', (leaf(ct), leaf(it), v)))
                ct = ct.args[1].term
            return leaf(mkapp('updS', '', (leaf(ct), leaf(it), v)))
        if unionleafcount([c, idx]) > 4 * DIST_LIMIT:
            return leaf(mkapp('updS', '', (c, idx, v)))
        return bind(f, [c, idx])

    def reify_light(self, v):
        return v

    def slice_range(self, it, n):
        def g(x):
            if x.var is not None:
                return 'bad'
            if x is NONE:
                return None
            k = numval(x.term)
            return int(k) if k is not None and k.denominator == 1 else 'bad'
        a, b, c = [g(x) for x in it.args]
        if 'bad' in (a, b, c):
            return None
        return list(range(n))[slice(a, b, c)]

    # ============================================================== select
    def sel(self, c, idx):
        """c: content node"""
        if idx.var is None and idx.term.kind == 'tuple' and len(idx.term.args) > 1:
            parts = idx.term.args
            if not any(x.var is None and x.term.kind == 'slice' or x is NONE or (x.var is not None and allbool(x)) or (x.var is None and x.term.kind == 'const') for x in parts):
                for p in parts:
                    c = self.sel(c, p)
                return c
        if idx.var is not None and allbool(idx):
            return bind(lambda ct: leaf(mkapp('sel', '', (self.reify(leaf(ct)), idx))), [c])
        if unionleafcount([c, idx]) > 8 * DIST_LIMIT:
            return leaf(mkapp('sel', '', (self.reify(c), idx)))
        return bind(self.sel_term, [c, idx])

    def sel_term(self, ct, it):
        k = ct.kind
        if k == 'obj':
            return self.sel(self.content(ct), leaf(it))
        if k in ('list', 'tuple', 'arr'):
            n = numval(it)
            if n is not None and n.denominator == 1:
                if -len(ct.args) <= n < len(ct.args):
                    return ct.args[int(n)]
                return app('IndexError')
            if it.kind == 'slice':
                rng = self.slice_range(it, len(ct.args))
                if rng is not None:
                    r = leaf(seqterm(k, [ct.args[j] for j in rng]))
                    return self.fresh(r) if k != 'tuple' else r
            elif it.kind not in ('tuple', 'const') and 0 < len(ct.args) <= 16:
                # symbolic position in a literal sequence
                r = leaf(mkapp('sel', '', (self.reify(leaf(ct)), leaf(it))))
                for j in reversed(range(len(ct.args))):
                    r = sign_case(t_sub(it, num(j)), r, ct.args[j], r)
                return r
        if k == 'dict':
            for kk, vv in ct.args:
                if kk.fp == it.fp:
                    return vv
            if isconst(it):
                if all(kk.var is None and isconst(kk.term) for kk, _ in ct.args):
                    return app('KeyError', leaf(it))
            elif len(ct.args) <= 24 and all(kk.var is None and isconst(kk.term) for kk, _ in ct.args):
                r = app('KeyError', leaf(it))
                for kk, vv in reversed(ct.args):
                    r = self.eq_terms(it, kk.term, r, vv)
                return r
            elif all(kk.var is None for kk, _ in ct.args):
                return leaf(mkapp('sel', '', (self.reify(leaf(ct)), leaf(it))))
        if k == 'attr' and ct.args[0] == 'shape' and numval(it) == 0:
            return self.x_len([ct.args[1]], {})
        if k == 'upd':
            items = ct.extra
            if it.fp in items:
                return items[it.fp][1]
            if isconst(it):
                return self.sel(ct.args[1], leaf(it))
        if k == 'updS':
            if ct.args[2].fp == it.fp:
                return ct.args[3]
            r = self.other_key(ct, it)
            if r is not None:
                return r
        if k == 'app' and ct.args[0] == 'numpy.array' and len(ct.args) == 2 and ct.args[1].var is None and ct.args[1].term.kind == 'list':
            r = self.sel_term(ct.args[1].term, it)
            if r.var is not None or r.term.kind != 'sel':
                return r
        if k == 'sel' and it.kind in ('slice', 'num') and ct.args[2].var is None and ct.args[2].term.kind == 'tuple':
            # x[i, :][a:b] is x[i, a:b]
            ps = ct.args[2].term.args
            full = [j for j, p in enumerate(ps) if p.var is None and p.term.kind == 'slice']
            if full and all(p.var is None for p in ps) and all(numval(p.term) is not None for j, p in enumerate(ps) if j not in full) and \
               all(x is NONE for x in ps[full[0]].term.args):
                return self.sel(ct.args[1], leaf(seqterm('tuple', [leaf(it) if j == full[0] else p for j, p in enumerate(ps)])))
        if k == 'const' and isinstance(ct.args, str):
            n = numval(it)
            if n is not None and n.denominator == 1 and -len(ct.args) <= n < len(ct.args):
                return L(ct.args[int(n)])
        r = leaf(mkapp('sel', '', (leaf(ct), leaf(it)), isint=self.intcontainer(ct)))
        return r

    def other_key(self, ct, it):
        """D[k_j] after stores at the keys k_i of D: the keys of a mapping differ from each other"""
        if it.kind != 'sel' or it.args[2].var is not None or numval(it.args[2].term) is None:
            return None
        c = ct
        while c.kind == 'updS' and c.args[1].var is None and c.args[2].var is None:
            k = c.args[2].term
            if k.fp == it.fp:
                return c.args[3]
            if not (k.kind == 'sel' and k.args[1] is it.args[1] and k.args[2].var is None and numval(k.args[2].term) is not None):
                return None
            c = c.args[1].term
        return self.sel_term(c, it) if c.fp == it.args[1].fp else None

    INTCONT = {'xi', 'yi', 'zi', 'ti', 'shape'}

    INTRESULT = ('rec:call:time_index',)     # elements are positions in an axis

    def intcontainer(self, ct):
        if ct.kind == 'app' and ct.args[0] == 'result' and ct.args[1].var is None and ct.args[1].term.args and ct.args[1].term.args[0] in self.INTRESULT:
            return True
        return ct.kind == 'attr' and ct.args[0] in self.INTCONT

    def index(self, s):
        if isinstance(s, ast.Slice):
            parts = [self.ev(x) if x is not None else NONE for x in (s.lower, s.upper, s.step)]
            if parts[0].var is None and numval(parts[0].term) == 0 and parts[2].var is None and parts[2].term is NONE.term:
                parts[0] = NONE
            return bind(lambda a, b, c: leaf(seqterm('slice', [leaf(a), leaf(b), leaf(c)])), parts) if unionleafcount(parts) <= DIST_LIMIT else leaf(seqterm('slice', parts))
        if isinstance(s, ast.Tuple):
            return leaf(seqterm('tuple', [self.index(x) for x in s.elts]))
        v = self.ev(s)
        if any(TERMS[q].kind == 'obj' for q in v.nl):
            return self.reify(v)
        return v

    # ============================================================== expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.sum.unknown.append(type(e).__name__)
            return app('unknown:' + type(e).__name__)
        return m(e)

    def cond(self, e):
        return self.truth(self.ev(e))

    def truth(self, v):
        if allbool(v):
            return v
        return bind(self.truth_term, [v])

    def truth_term(self, t):
        if t.kind == 'obj':
            c = self.content(t)
            if c.var is None and c.term.kind in ('list', 'dict', 'set', 'tuple', 'arr'):
                return TRUE if c.term.args else FALSE
            return bind(self.truth_content, [c])
        if t.kind == 'strcat':
            return TRUE if any(p.var is None and p.term.kind == 'const' for p in t.args) else truthy_case(t, FALSE, TRUE)
        if t.kind in ('poly', 'big') or t.isint:
            return sign_case(t, TRUE, FALSE, TRUE)
        key = ('i', t.fp)
        if key in self.st.heap:
            c = self.st.heap[key]
            if not (c.var is None and c.term is t):
                return bind(self.truth_content, [self.reify(c)])
        return truthy_case(t, FALSE, TRUE)

    def truth_content(self, t):
        if t.kind in ('poly', 'big') or t.isint:
            return sign_case(t, TRUE, FALSE, TRUE)
        return truthy_case(t, FALSE, TRUE)

    def e_Constant(self, e):
        if isinstance(e.value, (float,)) and getattr(e, 'kind', None) is None:
            return L(e.value)
        return L(e.value)

    def e_Name(self, e):
        n = e.id
        env = self.st.env
        if n in self.frames[-1].globals_decl:
            return self.hget(self.st.heap, ('a', sym('#globals').fp, n))
        if n in env:
            return env[n]
        fr = self.frames[-1]
        c = fr.closure
        while c is not None:
            cenv, cfr = c
            if n in cenv:
                return cenv[n]
            if cfr.func is not None and n in local_names(cfr.func):
                return UNDEF
            c = cfr.closure
        return self.global_name(n, fr.module)

    def global_name(self, n, m):
        if m is not None:
            if n in m.functions:
                return self.funcref(m.functions[n])
            if n in m.classes:
                return leaf(named('class', n))
            if n in m.imports:
                return self.imported(m.imports[n])
            if n in m.globals:
                return self.module_global(m, n)
        if n == '__undef':
            return UNDEF
        if n == '__cpi':
            return leaf(sym('const:pi'))
        if n == '__cnan':
            return leaf(sym('const:nan'))
        if n == '__cinf':
            return leaf(sym('const:inf'))
        if n in self.world.cfuncs and (m is None or getattr(m, 'lang', '') == 'c'):
            return self.funcref(self.world.cfuncs[n])
        if m is not None and getattr(m, 'lang', '') == 'c':
            k = self.world.cconsts.get(n)
            if k is not None:
                return L(k)
            return leaf(named('ext', n))
        if n in BUILTINS:
            return leaf(named('ext', n))
        if n in BUILTIN_EXC or n in ('Exception', 'BaseException', 'KeyboardInterrupt'):
            return leaf(named('class', n))
        return leaf(sym('name:' + n))

    def module_global(self, m, n):
        ex = m.globals.get(n)
        if ex is None or len(self.stack) > 12:
            return leaf(sym('global:' + n))
        if n in self.opts.get('opaque_globals', ()):
            return leaf(sym('global:' + n))
        if isinstance(ex, (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.UnaryOp, ast.BinOp, ast.Attribute, ast.Name, ast.Set)) and \
           not any(isinstance(x, (ast.Call, ast.Lambda, ast.ListComp)) for x in ast.walk(ex)):
            return self.in_module(m, ex)
        return leaf(sym('global:' + n))

    def in_module(self, m, ex):
        fr = Frame(None, m, None)
        self.frames.append(fr)
        old = self.st
        self.st = State({}, old.heap, TRUE, TRUE)
        try:
            v = self.ev(ex)
            if v.var is None and v.term.kind == 'obj':
                v = self.reify(v)
        finally:
            self.frames.pop()
            self.st = old
        return v

    def funcref(self, f):
        t = named('func', f.name)
        self.funcs[t.fp] = f
        return leaf(t)

    def imported(self, dotted):
        r = self.world.resolve_import(dotted)
        if r[0] == 'func':
            return self.funcref(r[1])
        if r[0] == 'class':
            return leaf(named('class', r[1].name))
        if r[0] == 'mod':
            return leaf(named('mod', r[1].name))
        if r[0] == 'global':
            return self.module_global(r[1], r[2])
        if r[0] == 'unknown':
            return leaf(sym('name:' + dotted.rsplit('.', 1)[-1]))
        d = r[1]
        if d in EXTCONST:
            return leaf(sym('const:' + EXTCONST[d]))
        return leaf(named('ext', d))

    def e_Attribute(self, e):
        o = self.ev(e.value)
        return self.attr(o, e.attr)

    def attr(self, o, name):
        if o.var is None:
            return self.attr_term(o.term, name)
        # property getters may need forks; others are leafwise
        return bind(lambda t: self.attr_term(t, name), [o])

    def attr_term(self, t, name):
        if name == 'ndim' and t.kind != 'ext':
            return bind(lambda s: self.x_len([leaf(s)], {}), [self.attr_term(t, 'shape')])
        if t.kind == 'ext':
            d = t.args + '.' + name
            if d in EXTCONST:
                return leaf(sym('const:' + EXTCONST[d]))
            return leaf(named('ext', d))
        if t.kind == 'mod':
            return self.imported(t.args + '.' + name)
        if t.kind == 'class':
            cls = self.world.classes.get(t.args)
            if cls is not None:
                ca = self.world.find_classattr(cls, name)
                key = ('a', t.fp, name)
                if ca is not None and key not in self.st.heap and isinstance(ca[1], (ast.Constant, ast.UnaryOp)) and not self.mutable_classattr(name):
                    return self.in_module(ca[0].module, ca[1])
                if ca is not None and isinstance(ca[1], (ast.Tuple, ast.List, ast.Dict)) and not self.mutable_classattr(name) and key not in self.st.heap:
                    return self.in_module(ca[0].module, ca[1])
        cls = self.types.get(t.fp)
        if cls is not None:
            f = self.world.find_method(cls, name)
            if f is not None and f.kind == 'property' and ('a', t.fp, name) not in self.st.heap:
                if (self.deep or name not in self.vocab) and f not in self.stack and len(self.frames) < self.max_depth:
                    return self.inline(f, [leaf(t)], {}, cls)
            if f is None and t.kind == 'sym' and t.args == 'cls':
                ca = self.world.find_classattr(cls, name)
                if ca is not None and isinstance(ca[1], (ast.Constant, ast.UnaryOp)) and not self.mutable_classattr(name):
                    return self.in_module(ca[0].module, ca[1])
            if f is None and t.kind == 'sym' and t.args == 'self' and name not in self.vocab_attrs():
                ca = self.world.find_classattr(cls, name)
                if ca is not None and ('a', t.fp, name) not in self.st.heap and not self.mutable_classattr(name) and isinstance(ca[1], (ast.Constant, ast.UnaryOp, ast.Tuple, ast.List, ast.Dict)):
                    return self.in_module(ca[0].module, ca[1])
        if t.kind == 'obj' or t.kind in ('list', 'dict', 'tuple', 'arr'):
            if name == 'T' or name == 'shape' or name == 'size':
                return app('attr.' + name, self.reify(leaf(t)))
        if t is UNDEF.term:
            return UNDEF
        return self.hget(self.st.heap, ('a', t.fp, name))

    def vocab_attrs(self):
        return self.opts.get('attrs', ())

    def mutable_classattr(self, name):
        w = self.world
        c = getattr(w, '_allmods', None)
        if c is None:
            c = w._allmods = set()
            for m in w.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        c.add(n.attr)
        return name in c

    def e_Subscript(self, e):
        o = self.ev(e.value)
        i = self.index(e.slice)
        if o.var is None and o.term.kind in ('class', 'ext'):
            return o
        while o.var is None and o.term.kind == 'app' and o.term.args[0] == 'addr':
            o, i = o.term.args[1], self.binop(ast.Add(), o.term.args[2], i)
        return self.sel(self.contents(o), i)

    def e_Tuple(self, e):
        return leaf(seqterm('tuple', self.elts(e.elts)))

    def elts(self, xs):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                v = self.contents(self.ev(x.value))
                if v.var is None and v.term.kind in ('list', 'tuple', 'arr'):
                    out.extend(v.term.args)
                else:
                    out.append(dist('app', 'star', [self.reify(v)]))
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        return self.fresh(leaf(seqterm('list', self.elts(e.elts))))

    def e_Set(self, e):
        return self.fresh(leaf(seqterm('set', self.elts(e.elts))))

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                c = self.contents(self.ev(v))
                if c.var is None and c.term.kind == 'dict':
                    for a, b in c.term.args:
                        items = [x for x in items if x[0].fp != a.fp] + [(a, b)]
                else:
                    items.append((L('**'), self.reify(c)))
            else:
                kk = self.reify(self.ev(k))
                vv = self.ev(v)
                items = [x for x in items if x[0].fp != kk.fp] + [(kk, vv)]
        return self.fresh(leaf(dictterm(items)))

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(L(v.value))
            else:
                x = self.reify(self.ev(v.value))
                spec = ''
                if v.format_spec is not None:
                    sp = self.e_JoinedStr(v.format_spec)
                    spec = sp.term.args if sp.var is None and sp.term.kind == 'const' else '?'
                parts.append(self.strpiece(x, spec, v.conversion))
        return strlift(lambda *ps: strcat(ps), parts)

    def strpiece(self, x, spec='', conv=-1):
        if conv == ord('r'):
            x = dist('app', 'repr', [x])
        if spec in ('', 's'):
            def f(t):
                if t.kind == 'num' and t.args.denominator == 1 and False:
                    return L(str(int(t.args)))
                return leaf(t)
            return x
        if spec == 'd':
            if all(l.term.isint or l.term.kind == 'num' and l.term.args.denominator == 1 for l in leaves(x)):
                return x
            return dist('app', 'fmt:d', [x])
        return dist('app', 'fmt:' + spec, [x])

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Lambda(self, e):
        return self.mkclosure(e)

    def mkclosure(self, node):
        self.uid += 1
        name = 'c%d_%d' % (id(self), self.uid)
        t = named('closure', name)
        self.closures[name] = (node, self.st.env, self.frames[-1])
        return leaf(t)

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        self.trace('yield', [self.reify(v)], {'#yield'}, {'#yield'})
        return app('yielded')

    def has_effect(self, e):
        return any(isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(e))

    def e_IfExp(self, e):
        c = self.cond(e.test)
        if c is TRUE:
            return self.ev(e.body)
        if c is FALSE:
            return self.ev(e.orelse)
        return self.fork(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0])
        for x in e.values[1:]:
            c = self.truth(v)
            if c is TRUE:
                v = self.ev(x) if isand else v
                continue
            if c is FALSE:
                v = v if isand else self.ev(x)
                continue
            if self.has_effect(x):
                w = (lambda v=v: v)
                v = self.fork(c, (lambda: self.ev(x)) if isand else w, w if isand else (lambda: self.ev(x)))
            else:
                y = self.ev(x)
                v = ite(c, y, v) if isand else ite(c, v, y)
        return v

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand))
        v = self.ev(e.operand)
        if isinstance(e.op, ast.USub):
            return self.arr_lift(lambda a: bind(lambda t: leaf(t_neg(t)), [a]), [v])
        if isinstance(e.op, ast.UAdd):
            return v
        if allbool(v) and v.var is not None:
            return not_(v)
        return dist('app', '~', [v])

    # ---------------------------------------------------------------- arithmetic
    def aslit(self, v):
        """literal array value (content term kind arr/list) or None"""
        if v.var is None and v.term.kind in ('obj', 'arr'):
            c = self.content(v.term)
            if c.var is None and c.term.kind == 'arr':
                return c.term
            if c.var is not None and all(x.term.kind == 'arr' for x in leaves(c)):
                c2 = self.canon(c)
                if c2.var is None:
                    return c2.term
        return None

    def arr_lift(self, f, vs):
        lits = [self.aslit(v) for v in vs]
        ns = {len(x.args) for x in lits if x is not None}
        if not ns:
            return f(*vs)
        if len(ns) > 1:
            return app('bcast', *[self.reify(v) for v in vs])
        n = ns.pop()
        out = []
        for i in range(n):
            out.append(self.arr_lift(f, [l.args[i] if l is not None else v for l, v in zip(lits, vs)]))
        return self.fresh(leaf(seqterm('arr', out)))

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        return self.arr_lift(lambda x, y: self.binop1(op, x, y), [a, b])

    def binop1(self, op, a, b):
        n = type(op).__name__
        if n in ('BitAnd', 'BitOr') and allbool(a) and allbool(b):
            return and_(a, b) if n == 'BitAnd' else or_(a, b)
        if n == 'Mod' and a.var is None and (a.term.kind == 'const' and isinstance(a.term.args, str)):
            return self.strformat_percent(a.term.args, b)
        if unionleafcount([a, b]) > 400:
            f = {'Add': t_add, 'Sub': t_sub, 'Mult': t_mul, 'Div': t_div}.get(n)
            if f is not None and not any(TERMS[q].kind in ('obj', 'list', 'tuple', 'strcat', 'dict', 'arr', 'const') for q in a.nl | b.nl if q != UNDEF.fp):
                return leaf(f(gate(a), gate(b)))
            return leaf(mkapp('app', 'op' + n, (a, b)))
        return bind(lambda x, y: self.binop_term(n, x, y), [a, b])

    def binop_term(self, n, x, y):
        if x is UNDEF.term or y is UNDEF.term:
            return UNDEF
        xs = x.kind == 'strcat' or x.kind == 'const' and isinstance(x.args, str)
        ys = y.kind == 'strcat' or y.kind == 'const' and isinstance(y.args, str)
        if n == 'Add':
            if xs or ys:
                return strcat([leaf(x), leaf(y)])
            if x.kind in ('obj', 'list', 'tuple') or y.kind in ('obj', 'list', 'tuple'):
                cx, cy = self.content(x), self.content(y)
                def f(a, b):
                    if a.kind in ('list', 'tuple') and b.kind in ('list', 'tuple'):
                        r = leaf(seqterm(a.kind, a.args + b.args))
                        return r if a.kind == 'tuple' else self.fresh(r)
                    return bind(cat_terms, [self.reify(leaf(a)), self.reify(leaf(b))])
                return bind(f, [cx, cy])
            return leaf(t_add(x, y))
        if x.kind == 'obj' or y.kind == 'obj':
            x2, y2 = self.reify(leaf(x)), self.reify(leaf(y))
            if n == 'Mult':
                for p, q in ((x2, y2), (y2, x2)):
                    if p.var is None and p.term.kind == 'list' and q.var is None:
                        k = numval(q.term)
                        if k is not None and k.denominator == 1 and 0 <= k <= 16:
                            return self.fresh(leaf(seqterm('list', p.term.args * int(k))))
            return leaf(mkapp('app', 'op' + n, (x2, y2)))
        if n == 'Sub':
            return leaf(t_sub(x, y))
        if n == 'Mult':
            if xs or ys:
                return leaf(mkapp('app', 'strmul', (leaf(x), leaf(y))))
            return leaf(t_mul(x, y))
        if n == 'Div':
            return leaf(t_div(x, y))
        if n == 'Pow':
            k = numval(y)
            if k is not None:
                if k.denominator == 1 and 0 <= k <= 8:
                    r = num(1)
                    for _ in range(int(k)):
                        r = t_mul(r, x)
                    return leaf(r)
                if k.denominator == 1 and -8 <= k < 0:
                    r = num(1)
                    for _ in range(int(-k)):
                        r = t_mul(r, x)
                    return leaf(t_div(num(1), r))
                if k.denominator == 2 and 0 < k <= 8:
                    s = mkapp('app', 'sqrt', (leaf(x),))
                    r = num(1)
                    for _ in range(int(k)):
                        r = t_mul(r, x)
                    return leaf(t_mul(r, s))
            kx = numval(x)
            if kx is not None and k is not None and k.denominator == 1 and abs(k) < 64 and kx != 0:
                return leaf(num(kx ** int(k)))
            return leaf(mkapp('app', 'pow', (leaf(x), leaf(y))))
        kx, ky = numval(x), numval(y)
        if n == 'FloorDiv':
            if kx is not None and ky:
                return leaf(num((kx / ky).__floor__()))
            return leaf(mkapp('app', 'floordiv', (leaf(x), leaf(y)), isint=x.isint and y.isint))
        if n == 'Mod':
            if kx is not None and ky:
                return leaf(num(kx - ky * (kx / ky).__floor__()))
            return leaf(mkapp('app', 'mod', (leaf(x), leaf(y)), isint=x.isint and y.isint))
        if n == 'CMod':
            if kx is not None and ky:
                q = abs(kx) // abs(ky)
                return leaf(num(kx - ky * (q if (kx >= 0) == (ky > 0) else -q)))
            return leaf(mkapp('app', 'cmod', (leaf(x), leaf(y)), isint=True))
        if n == 'CDiv':
            if kx is not None and ky:
                q = abs(kx) // abs(ky)
                return leaf(num(q if (kx >= 0) == (ky > 0) else -q))
            return leaf(mkapp('app', 'cdiv', (leaf(x), leaf(y)), isint=True))
        return leaf(mkapp('app', 'op' + n, (leaf(x), leaf(y))))

    def strformat_percent(self, fmt, arg):
        arg = self.contents(arg) if arg.var is None else arg
        if arg.var is None and arg.term.kind == 'tuple':
            args = list(arg.term.args)
        else:
            args = [arg]
        parts = []
        pos = 0
        ai = 0
        for m in re.finditer(r'%(\([^)]*\))?([-#0 +]*\d*(?:\.\d+)?)([sdrfeigxXcu%])', fmt):
            parts.append(L(fmt[pos:m.start()]))
            pos = m.end()
            if m.group(3) == '%':
                parts.append(L('%'))
                continue
            if m.group(1):
                x = self.sel(self.contents(args[0]), L(m.group(1)[1:-1]))
            elif ai < len(args):
                x = args[ai]
                ai += 1
            else:
                x = app('missingarg')
            x = self.reify(x)
            if m.group(3) == 's' and not m.group(2):
                parts.append(self.strpiece(x))
            elif m.group(3) == 'r':
                parts.append(dist('app', 'repr', [x]))
            else:
                parts.append(self.strpiece(x, m.group(2) + m.group(3)))
        parts.append(L(fmt[pos:]))
        return strlift(lambda *ps: strcat(ps), parts)

    def strformat_brace(self, fmt, args, kw):
        parts = []
        pos = 0
        auto = 0
        for m in re.finditer(r'\{\{|\}\}|\{([^{}:!]*)(![rs])?(?::([^{}]*))?\}', fmt):
            parts.append(L(fmt[pos:m.start()]))
            pos = m.end()
            if m.group(0) in ('{{', '}}'):
                parts.append(L(m.group(0)[0]))
                continue
            name = m.group(1)
            if name == '':
                x = args[auto] if auto < len(args) else app('missingarg')
                auto += 1
            elif name.isdigit():
                x = args[int(name)] if int(name) < len(args) else app('missingarg')
            elif name in kw:
                x = kw[name]
            else:
                x = app('fmtfield:' + name)
            parts.append(self.strpiece(self.reify(x), m.group(3) or '', ord('r') if m.group(2) == '!r' else -1))
        parts.append(L(fmt[pos:]))
        return strlift(lambda *ps: strcat(ps), parts)

    # ---------------------------------------------------------------- comparison
    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, rt in zip(e.ops, e.comparators):
            right = self.ev(rt)
            c = self.arr_lift(lambda a, b: self.compare(op, a, b), [left, right]) if not isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) else self.compare(op, left, right)
            res = c if res is None else and_(res, c)
            left = right
        return res

    def compare(self, op, a, b):
        n = type(op).__name__
        if n in ('In', 'NotIn'):
            r = self.contains(a, b)
            return not_(r) if n == 'NotIn' else r
        if n in ('Is', 'IsNot', 'Eq', 'NotEq'):
            if unionleafcount([a, b]) > 400:
                r = truthy_case(mkapp('app', 'eq', (a, b)), FALSE, TRUE)
            else:
                r = bind(lambda x, y: self.eq_terms(x, y, FALSE, TRUE, n.startswith('Is')), [a, b])
            return not_(r) if n in ('IsNot', 'NotEq') else r
        lt, eq, gt = {'Lt': (TRUE, FALSE, FALSE), 'LtE': (TRUE, TRUE, FALSE), 'Gt': (FALSE, FALSE, TRUE), 'GtE': (FALSE, TRUE, TRUE)}[n]
        if unionleafcount([a, b]) > 400:
            return truthy_case(mkapp('app', 'cmp' + n, (a, b)), FALSE, TRUE)

        def f(x, y):
            if x is UNDEF.term or y is UNDEF.term:
                return FALSE
            if x.kind == 'obj' or y.kind == 'obj':
                return truthy_case(mkapp('app', 'cmp' + n, (self.reify(leaf(x)), self.reify(leaf(y)))), FALSE, TRUE)
            return sign_case(t_sub(x, y), lt, eq, gt)
        return bind(f, [a, b])

    def eq_terms(self, x, y, no, yes, ident=False):
        if x is UNDEF.term or y is UNDEF.term:
            return no
        if x is y:
            if x.kind in ('sym', 'attr', 'sel', 'app', 'poly', 'big') and self.opts.get('nan'):
                return truthy_case(mkapp('app', 'notnan', (leaf(x),)), no, yes)
            return yes
        if isconst(x) and isconst(y):
            if x.kind in ('const', 'num') and y.kind in ('const', 'num'):
                nx, ny = numval(x), numval(y)
                if nx is not None and ny is not None and not ident:
                    return yes if nx == ny else no
            return no
        if isconst(x):
            x, y = y, x
        if isconst(y):
            if y.kind == 'num' or (y.kind == 'const' and isinstance(y.args, bool) and x.kind in ('poly', 'big')):
                if x.kind in ('obj', 'tuple', 'list', 'dict', 'strcat', 'closure'):
                    return no
                return sign_case(t_sub(x, y), no, yes, no)
            if x.kind == 'obj':
                return no
            if x.kind in ('poly', 'big', 'new'):
                return no
            return eq_case(x, y, no, yes)
        if x.kind == 'obj' or y.kind == 'obj':
            a, b = self.reify(leaf(x)), self.reify(leaf(y))
            if a.fp == b.fp and not ident:
                return yes
            s = sorted([a, b], key=lambda q: q.fp)
            return truthy_case(mkapp('app', 'eq', tuple(s)), no, yes)
        if x.kind in ('tuple', 'strcat', 'list') or y.kind in ('tuple', 'strcat', 'list'):
            if x.kind == 'tuple' and y.kind == 'tuple':
                if len(x.args) != len(y.args):
                    return no
                r = TRUE
                for p, q in zip(x.args, y.args):
                    r = and_(r, bind(lambda u, v: self.eq_terms(u, v, FALSE, TRUE), [p, q]))
                return ite(r, yes, no)
            s = sorted([leaf(x), leaf(y)], key=lambda q: q.fp)
            return truthy_case(mkapp('app', 'eq', tuple(s)), no, yes)
        if ident:
            s = sorted([leaf(x), leaf(y)], key=lambda q: q.fp)
            return truthy_case(mkapp('app', 'is', tuple(s)), no, yes)
        return sign_case(t_sub(x, y), no, yes, no)

    def contains(self, a, c):
        c = self.contents(c)

        def f(ct):
            if ct.kind in ('list', 'tuple', 'set', 'arr'):
                r = FALSE
                for it in ct.args:
                    r = or_(r, bind(lambda x, y: self.eq_terms(x, y, FALSE, TRUE), [a, it]))
                return r
            if ct.kind == 'dict':
                r = FALSE
                for it, _ in ct.args:
                    r = or_(r, bind(lambda x, y: self.eq_terms(x, y, FALSE, TRUE), [a, it]))
                return r
            if ct.kind == 'iter' and ct.args[0] == 'keys':
                ct = ct.args[1].term if ct.args[1].var is None else ct
            def g(x):
                if x.kind == 'const' and ct.kind == 'const' and isinstance(x.args, str) and isinstance(ct.args, str):
                    return TRUE if x.args in ct.args else FALSE
                if ct.kind == 'upd' and x.fp in ct.extra:
                    return TRUE
                if ct.kind == 'upd' and x.kind == 'const' and all(a.var is None and a.term.kind == 'const' and isinstance(a.term.args, str) for a, _ in ct.extra.values()):
                    return self.contains(leaf(x), ct.args[1])
                return truthy_case(mkapp('app', 'in', (self.reify(leaf(x)), leaf(ct))), FALSE, TRUE)
            return bind(g, [a])
        return bind(f, [c])

    # ---------------------------------------------------------------- comprehensions
    def comp(self, gens, emit):
        """run generator clauses as loops in a nested scope"""
        def level(k):
            if k == len(gens):
                emit()
                return
            g = gens[k]
            it = self.ev(g.iter)

            def body(elem):
                self.assign(g.target, elem)
                def conds(j):
                    if j == len(g.ifs):
                        level(k + 1)
                        return
                    c = self.cond(g.ifs[j])
                    self.fork(c, lambda: conds(j + 1), lambda: None)
                conds(0)
            self.loop(self.iter_steps(it, body), [])
        level(0)

    def e_ListComp(self, e, kind='list'):
        acc = self.fresh(leaf(seqterm(kind, ())))
        saved = {n: self.st.env.get(n) for g in e.generators for n in [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]}

        def emit():
            v = self.ev(e.elt)
            key = ('i', acc.term.fp)
            self.st.heap[key] = bind(lambda t: leaf(seqterm(kind, t.args + (v,))), [self.st.heap[key]])
        self.comp(e.generators, emit)
        for n, v in saved.items():
            if v is None:
                self.st.env.pop(n, None)
            else:
                self.st.env[n] = v
        return acc

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e)

    def e_SetComp(self, e):
        return self.e_ListComp(e, 'set')

    def e_DictComp(self, e):
        acc = self.fresh(leaf(dictterm(())))
        saved = {n: self.st.env.get(n) for g in e.generators for n in [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]}

        def emit():
            k = self.reify(self.ev(e.key))
            v = self.ev(e.value)
            key = ('i', acc.term.fp)
            self.st.heap[key] = self.stored(self.st.heap[key], k, v)
        self.comp(e.generators, emit)
        for n, v in saved.items():
            if v is None:
                self.st.env.pop(n, None)
            else:
                self.st.env[n] = v
        return acc

    # ============================================================== calls
    def e_Call(self, e):
        if any(isinstance(a, ast.Starred) for a in e.args):
            r = self.starred(e)
            if r is not None:
                return r
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and f.id not in self.st.env:
            return leaf(named('code', 'super'))
        if isinstance(f, ast.Attribute):
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id in ('logger', 'warnings', 'logging') and root.id not in self.st.env:
                return NONE
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                args, kw = self.args(e)
                return self.call_super(f.attr, args, kw)
            o = self.ev(f.value)
            args, kw = self.args(e)
            return self.call_method(o, f.attr, args, kw)
        if isinstance(f, ast.Name) and f.id == 'print' and f.id not in self.st.env:
            return NONE
        if isinstance(f, ast.Name) and f.id.startswith('__') and hasattr(self, 'c' + f.id):
            return getattr(self, 'c' + f.id)(*[self.ev(a) for a in e.args])
        if isinstance(f, ast.Name) and f.id in ('printf', 'fprintf') and getattr(self.frames[-1].module, 'lang', '') == 'c':
            return NONE
        if isinstance(f, ast.Name) and f.id == 'sorted' and f.id not in self.st.env and len(e.args) == 1 and len(e.keywords) == 1 and e.keywords[0].arg == 'key':
            k = e.keywords[0].value
            if isinstance(k, ast.Lambda) and len(k.args.args) == 1 and isinstance(k.body, ast.UnaryOp) and isinstance(k.body.op, ast.Not) and isinstance(e.args[0], (ast.Name, ast.Attribute)):
                # sorting by a condition partitions, in order
                v = k.args.args[0].arg
                t, n = ast.Name(id=v, ctx=ast.Store()), ast.Name(id=v, ctx=ast.Load())
                part = [ast.ListComp(elt=n, generators=[ast.comprehension(target=t, iter=e.args[0], ifs=[c], is_async=0)]) for c in (k.body.operand, k.body)]
                return self.ev(ast.fix_missing_locations(ast.copy_location(ast.BinOp(part[0], ast.Add(), part[1]), e)))
        fv = self.ev(f)
        args, kw = self.args(e)
        return self.call_value(fv, args, kw)

    def starred(self, e):
        """the call with a starred argument that is one of several sequences"""
        for i, a in enumerate(e.args):
            if isinstance(a, ast.Starred) and not isinstance(a.value, ast.Call):
                v = self.contents(self.ev(a.value))
                if v.var is None:
                    continue
                ls = list(leaves(v))
                if len(ls) > 6 or not any(x.term.kind in ('list', 'tuple', 'arr') for x in ls):
                    continue
                nm = '#star%d' % i
                e2 = ast.copy_location(ast.Call(func=e.func, args=e.args[:i] + [ast.Starred(value=ast.Name(id=nm, ctx=ast.Load()), ctx=ast.Load())] + e.args[i + 1:], keywords=e.keywords), e)
                ast.fix_missing_locations(e2)

                def go(lf):
                    self.st.env[nm] = lf
                    return self.e_Call(e2)
                r = self.over(v, go)
                self.st.env.pop(nm, None)
                return r
        return None

    # C operations (see cfront)
    def c__f32(self, v):
        return v if self.opts.get('nof32') else self.f32(v)

    def c__asint(self, v):
        for lf in leaves(v):
            if lf.term.kind in ('attr', 'sel', 'app', 'sym'):
                lf.term.isint = True
        return v

    def c__view(self, p, *dims):
        if self.opts.get('noview'):
            return p
        return bind(lambda t: leaf(mkapp('app', 'view', (leaf(t),) + dims)), [p])

    def c__addr(self, p, i):
        return leaf(mkapp('app', 'addr', (p, i)))

    def c__vla(self):
        return self.fresh(app('vla'))

    def args(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.contents(self.ev(a.value))
                if v.var is None and v.term.kind in ('list', 'tuple', 'arr'):
                    args.extend(v.term.args)
                else:
                    args.append(leaf(mkapp('app', 'star', (self.reify(v),))))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                c = self.contents(v)
                if c.var is None and c.term.kind == 'dict' and all(x.var is None and x.term.kind == 'const' for x, _ in c.term.args):
                    for x, y in c.term.args:
                        kw[x.term.args] = y
                else:
                    kw['**'] = self.reify(v)
            else:
                kw[k.arg] = v
        return args, kw

    def over(self, v, f):
        """run f(leaf) for each leaf of v under its guard"""
        if v.var is None:
            return f(v)
        ls = sorted(leaves(v), key=lambda x: x.uid)

        def rec(i):
            if i == len(ls) - 1:
                return f(ls[i])
            g = bind(lambda t: TRUE if t.fp == ls[i].fp else FALSE, [v])
            return self.fork(g, lambda: f(ls[i]), lambda: rec(i + 1))
        return rec(0)

    def call_value(self, fv, args, kw):
        if fv.var is not None:
            if len(fv.nl) <= 12:
                return self.over(fv, lambda lf: self.call_value(lf, args, kw))
            return self.opaque_call('apply', [fv] + args, kw, set(), set())
        t = fv.term
        if t.kind == 'closure':
            return self.call_closure(t, args, kw)
        if t.kind == 'func':
            f = self.funcs.get(t.fp)
            return self.call_func(f, args, kw, None)
        if t.kind == 'class':
            return self.construct(t, args, kw)
        if t.kind == 'ext':
            return self.call_ext(t.args, args, kw)
        if t.kind == 'attr' and len(t.args) == 2:
            o = t.args[1]
            return self.call_method(o, t.args[0], args, kw, noattr=True)
        if t.kind == 'sym' and t.args == 'cls' and t.fp in self.types:
            return self.construct(named('class', 'cls:' + self.types[t.fp].name), args, kw)
        # opaque function value
        return self.opaque_call('apply', [fv] + args, kw, {'#user'}, {'#user'}, raising=True)

    def call_closure(self, t, args, kw, allow_missing=False):
        node, env, fr = self.closures[t.args]
        if len(self.frames) > 14:
            return app('deepcall')
        nf = Frame(fr.func, fr.module, fr.selfcls, closure=(env, fr))
        newenv = {}
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if not self.bind_args(names, a, args, kw, newenv, fr.module, closure=(env, fr)):
            return self.opaque_call('apply', [leaf(named('code', 'closure'))] + args, kw, set(), set())
        return self.run_body(nf, newenv, node)

    def run_body(self, nf, newenv, node):
        old = self.st
        caller = self.frames[-1]
        caller.saved_env = old.env
        self.frames.append(nf)
        self.st = State(newenv, old.heap, old.live, old.path)

        def run():
            n0 = len(self.exits)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body)
            self.block(node.body)
            rets = self.take(n0, nf, ('ret',))
            items = [(r.guard, {'#ret': r.value}, r.heap) for r in rets]
            if self.st.live is not FALSE:
                items.append((self.st.live, {'#ret': NONE}, self.st.heap))
            st = self.join(items)
            if st.live is FALSE:
                st = State({}, self.st.heap, FALSE, FALSE)
            else:
                st.path = old.path
            v = st.env.pop('#ret', UNDEF)
            self.st = st
            return v
        v = self.region(run)
        self.frames.pop()
        self.st = State(old.env, self.st.heap, self.st.live, old.path if self.st.live is not FALSE else FALSE)
        return v

    def bind_args(self, names, a, args, kw, env, module, closure=None, cls=None):
        kw = dict(kw)
        if any(x.var is None and x.term.kind == 'app' and x.term.args[0] == 'star' for x in args) or '**' in kw:
            return False
        if len(args) > len(names) and not a.vararg:
            return False
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = leaf(seqterm('tuple', args[len(names):]))
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names[len(args):] + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                env[n] = kw.pop(n)
            elif n in defaults:
                env[n] = self.default_value(defaults[n], module, closure)
            else:
                return False
        if kw:
            if not a.kwarg:
                return False
            env[a.kwarg.arg] = self.fresh(leaf(dictterm([(L(k), v) for k, v in kw.items()])))
        elif a.kwarg:
            env[a.kwarg.arg] = self.fresh(leaf(dictterm(())))
        return True

    def default_value(self, d, module, closure=None):
        fr = Frame(None, module, None, closure=closure)
        self.frames.append(fr)
        old = self.st
        self.st = State({}, old.heap, TRUE, TRUE)
        v = self.ev(d)
        self.frames.pop()
        self.st = State(old.env, self.st.heap, old.live, old.path)
        return v

    def should_inline(self, f):
        if f is None or f in self.stack or len(self.frames) >= self.max_depth or f.name in self.noinline:
            return False
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            return False
        if self.deep:
            return f.name in self.opts.get('deepnames', ()) or f.name not in self.vocab or self.deep is True
        return f.name not in self.vocab

    def call_func(self, f, args, kw, selfcls):
        if self.should_inline(f):
            r = self.inline(f, args, kw, selfcls or f.cls)
            if r is not None:
                return r
        return self.prim_call(f.name, f, None, args, kw)

    def inline(self, f, args, kw, selfcls):
        newenv = {}
        names = f.params
        if not self.bind_args(names, f.node.args, args, kw, newenv, f.module):
            return None
        nf = Frame(f, f.module, selfcls)
        if f.cls is not None and names and f.kind != 'staticmethod':
            a0 = newenv.get(names[0])
            if a0 is not None and a0.var is None and a0.term.fp not in self.types and selfcls is not None and a0.term.kind != 'class':
                self.types[a0.term.fp] = selfcls
        self.sum.inlined.add(f.qual)
        self.stack.append(f)
        v = self.run_body(nf, newenv, f.node)
        self.stack.pop()
        if f.lang == 'c' and getattr(f, 'retint', False):
            pass
        return v

    def call_super(self, name, args, kw):
        fr = self.frames[-1]
        f = None
        owner = fr.func.cls if fr.func is not None else None
        if fr.selfcls is not None and owner is not None:
            f = self.world.find_method(fr.selfcls, name, after=owner)
        selfv = self.st.env.get(fr.func.params[0]) if fr.func is not None and fr.func.params else UNDEF
        if f is None:
            return self.prim_call('super.' + name, None, None, args, kw)
        if (self.deep and f not in self.stack) or f.name not in self.vocab:
            r = self.inline(f, [selfv] + args, kw, fr.selfcls)
            if r is not None:
                return r
        return self.prim_call('super.' + name, f, selfv, args, kw)

    def construct(self, t, args, kw):
        name = t.args
        cls = self.world.classes.get(name)
        init = self.world.find_method(cls, '__init__') if cls is not None else None
        eff = set()
        if init is not None:
            m = self.world.byname.get('__init__@' + init.cls.name)
            eff = {x for x in (m[0].mod if m else set()) if x.startswith('#') and x != '#setattr'}
        b = self.canon_args(init, args, kw, skip=1)
        if eff:
            return self.opaque_call('new:' + name, [], b, eff, eff, raising=True)
        r = dist('new', name, self.flat(b))
        return r

    def flat(self, b):
        out = []
        for k in sorted(b):
            out.append(L(k))
            out.append(self.reify(b[k]))
        return out

    def canon_args(self, f, args, kw, skip=0):
        """bind arguments to parameter names, dropping defaults"""
        b = {}
        names = None
        a = None
        if f is not None:
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args][skip:]
        star = any(x.var is None and x.term.kind == 'app' and x.term.args[0] == 'star' for x in args)
        for i, v in enumerate(args):
            if names is not None and i < len(names) and not star:
                b[names[i]] = v
            else:
                b['#%d' % i] = v
        for k, v in kw.items():
            b[k] = v
        if a is not None:
            defaults = dict(zip(names[len(names) - len(a.defaults):] if a.defaults else [], a.defaults[-len(names):] if a.defaults else []))
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    defaults[x.arg] = d
            for n, d in defaults.items():
                if n in b and isinstance(d, (ast.Constant, ast.UnaryOp, ast.Name, ast.Attribute)):
                    if self.default_value(d, f.module) is b[n]:
                        del b[n]
        return b

    def drop_defaults(self, name, b):
        """keyword arguments that every function of that name has as its default"""
        fs = self.world.byname.get(name) or ()
        out = dict(b)
        for n, v in b.items():
            if v.var is not None or not isconst(v.term):
                continue
            for f in fs:
                if f.lang == 'c':
                    break
                a = f.node.args
                names = a.posonlyargs + a.args
                ds = {x.arg: d for x, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)) if d is not None}
                if not isinstance(ds.get(n), ast.Constant) or self.default_value(ds[n], f.module) is not v:
                    break
            else:
                if fs:
                    del out[n]
        return out

    def prim_call(self, name, f, recv, args, kw):
        """call of a primitive repo function / method"""
        bare = name.split('.')[-1]
        b = self.canon_args(f, args, kw, skip=1 if (recv is not None and f is not None and f.kind != 'staticmethod') else 0)
        if f is not None and f.lang == 'c':
            mod, ref = set(f.mod), set(f.ref)
        else:
            mod, ref = self.world.modref(bare)
            if f is None:
                b = self.drop_defaults(bare, b)
        if recv is not None:
            b = dict(b)
            b['@self'] = recv
        return self.opaque_call(('callc:' if f is not None and f.lang == 'c' else 'call:') + name, [], b, mod, ref, raising=True)

    def opaque_call(self, name, args, kw, mod, ref, raising=False):
        self.sum.calls += 1
        st = self.st
        b = dict(kw)
        for i, a in enumerate(args):
            b['#%d' % i] = a
        flat = self.flat(b)
        # state of the heap that the callee may look at
        stamp = []
        if ref or mod:
            for key, v in st.heap.items():
                if key[0] == 'a' and (key[2] in ref) and v is not self.hdefault({}, key):
                    if TERMS[key[1]].kind in ('obj',):
                        continue
                    stamp.append((key[1], key[2], self.reify(v)))
                elif key[0] == 'i' and TERMS[key[1]].kind == 'attr' and TERMS[key[1]].args[0] in ref:
                    stamp.append((key[1], '[]', self.reify(v)))
        stamp.sort(key=lambda x: (x[0], x[1]))
        sargs = []
        for m in sorted(ref):
            ver = st.heap.get(('v', m))
            if ver is not None and not m.startswith('#') and not mod:
                sargs += [L('#after'), L(m), ver]
        for ofp, at, v in stamp:
            sargs += [leaf(TERMS[ofp]), L(at), v]
        if sargs:
            flat = flat + [L('#stamp')] + [leaf(seqterm('tuple', sargs))]
        if not mod:
            keep = ()
            r = dist('call', name, flat)
            if raising:
                self.may_raise(r)
            return r
        rec = dist('rec', name, flat)
        self.sum.info.setdefault('modref', {})[name] = (frozenset(mod), frozenset(ref))
        key = ('t',)
        tr = self.hget(st.heap, key)
        st.heap[key] = self.tracecat(tr, rec)
        res = self.result_of(tr, rec)
        if raising:
            self.may_raise(res)
            st = self.st
        # havoc what the callee may write
        for m in mod:
            if m.startswith('#'):
                continue
            if m == '@args':
                continue
            for k in [k for k in st.heap if k[0] == 'a' and k[2] == m]:
                del st.heap[k]
            for k in [k for k in st.heap if k[0] == 'i' and TERMS[k[1]].kind == 'attr' and TERMS[k[1]].args[0] == m]:
                del st.heap[k]
            st.heap[('v', m)] = dist('app', 'after', [rec])
        if '@args' in mod:
            cf = self.world.cfuncs.get(name[6:]) if name.startswith('callc:') else None
            for n, a in b.items():
                if n == '@self' or cf is not None and n not in cf.modparams:
                    continue
                for lf, g in self.guarded(a):
                    if cf is not None and lf.term.kind == 'app' and lf.term.args[0] == 'addr':
                        new = dist('app', 'out', [rec, L(n)])
                        self.fork(g, lambda: self.store_item(lf, L(0), new), lambda: None)
                        st = self.st
                        continue
                    if lf.term.kind == 'obj' or (name.startswith('callc:') and not isconst(lf.term)):
                        k = ('i', lf.term.fp)
                        new = leaf(mkapp('app', 'out', (rec, L(n)))) if rec.var is None else dist('app', 'out', [rec, L(n)])
                        st.heap[k] = new if g is TRUE else ite(g, new, self.hget(st.heap, k))
        return res

    def result_of(self, tr, rec):
        """value of a call with effects: repetitions of the same call are told apart"""
        def f(t, r):
            me = leaf(r)
            n = sum(1 for x in t.args if x is me)
            pre = [x for x in t.args[:1] if x.var is None and x.term.kind == 'app' and x.term.args[0] == 'prefix']
            if not n and not pre:
                return leaf(mkapp('app', 'result', (me,)))
            return leaf(mkapp('app', 'result', (me, L(n)) + tuple(pre)))
        if unionleafcount([tr, rec]) > self.TRACE_LIMIT:
            return dist('app', 'result', [rec])
        return bind(f, [tr, rec])

    def trace(self, name, args, mod, ref):
        rec = dist('rec', name, args)
        self.sum.info.setdefault('modref', {})[name] = (frozenset(mod), frozenset(ref))
        tr = self.hget(self.st.heap, ('t',))
        self.st.heap[('t',)] = self.tracecat(tr, rec)
        return rec

    TRACE_LIMIT = 64

    def tracecat(self, tr, rec):
        """append a record; beyond the limit the prefix is folded into one opaque element"""
        if tr.var is not None and self.size(tr, 400) >= 400:
            tr = leaf(seqterm('trace', (leaf(mkapp('prefix', '', (tr,))),)))
        if rec.var is not None and self.size(rec, 400) >= 400:
            rec = leaf(mkapp('rec', 'gated', (rec,)))
        if unionleafcount([tr, rec]) > self.TRACE_LIMIT:
            if len(tr.nl) > 8:
                tr = leaf(seqterm('trace', (leaf(mkapp('prefix', '', (tr,))),)))
            if len(rec.nl) > 8:
                rec = leaf(mkapp('rec', 'gated', (rec,)))
        return bind(lambda a, b: leaf(seqterm('trace', a.args + (leaf(b),))), [tr, rec])

    # ---------------------------------------------------------------- methods
    def call_method(self, o, name, args, kw, noattr=False):
        if o.var is not None:
            if name in ('all', 'any') and not args and not kw and allbool(o):
                return self.anyall([o], name == 'any')
            if len(o.nl) <= 12:
                return self.over(o, lambda lf: self.call_method(lf, name, args, kw))
            return self.opaque_method(o, name, args, kw)
        t = o.term
        if t.kind == 'ext':
            return self.call_ext(t.args + '.' + name, args, kw)
        if t.kind == 'mod':
            return self.call_value(self.imported(t.args + '.' + name), args, kw)
        if t.kind == 'class':
            cls = self.world.classes.get(t.args)
            f = self.world.find_method(cls, name) if cls is not None else None
            if f is not None:
                if f.kind == 'classmethod':
                    if self.should_inline(f):
                        r = self.inline(f, [o] + args, kw, cls)
                        if r is not None:
                            return r
                    return self.prim_call(name, f, o, args, kw)
                return self.call_func(f, args, kw, cls)
            return self.opaque_method(o, name, args, kw)
        cls = self.types.get(t.fp)
        if cls is not None:
            f = self.world.find_method(cls, name)
            if f is not None and f.kind != 'property':
                if self.should_inline(f):
                    a = args if f.kind == 'staticmethod' else [o] + args
                    r = self.inline(f, a, kw, cls)
                    if r is not None:
                        return r
                return self.prim_call(name, f, o, args, kw)
        # attribute holding a known function value
        if not noattr and ('a', t.fp, name) in self.st.heap:
            v = self.st.heap[('a', t.fp, name)]
            if all(x.term.kind in ('closure', 'func', 'class', 'ext') for x in leaves(v)):
                return self.call_value(v, args, kw)
        if t.kind == 'obj' or t.kind in ('list', 'dict', 'tuple', 'set', 'arr'):
            r = self.container_method(t, name, args, kw)
            if r is not None:
                return r
        if t.kind == 'const' and isinstance(t.args, str) or t.kind == 'strcat':
            r = self.str_method(t, name, args, kw)
            if r is not None:
                return r
        return self.opaque_method(o, name, args, kw)

    def opaque_method(self, o, name, args, kw):
        if name in ('keys', 'items', 'values') and not args:
            c = self.reify(o)
            return bind(lambda t: self.dict_view(t, name), [c])
        if name in ('copy',) and not args and name not in self.world.byname:
            return dist('app', 'copy', [self.reify(o)])
        if name == 'get' and 1 <= len(args) <= 2 and name not in self.vocab:
            # mapping lookup with default
            d = args[1] if len(args) == 2 else NONE
            c = self.contains(args[0], o)
            return ite(c, self.sel(self.contents(o), args[0]), d)
        fs = self.world.byname.get(name)
        if not fs and name in ('visit', 'generic_visit'):
            mod, ref = self.world.modref(name)
            b = {'#%d' % i: a for i, a in enumerate(args)}
            b.update(kw)
            b['@self'] = o
            return self.opaque_call('call:' + name, [], b, mod, ref, raising=True)
        if fs and name in self.world.properties:
            fs = [f for f in fs if f.kind != 'property']
        if fs:
            f = fs[0]
            if len(fs) > 1:
                sigs = {tuple(x.params) for x in fs}
                if len(sigs) > 1:
                    f = None
            if f is None and fs:
                # ambiguous signature: use any whose parameters cover the call
                pass
            b = self.canon_args(f, args, kw, skip=1 if f is not None and f.cls is not None and f.kind != 'staticmethod' else 0)
            if name not in self.vocab and len(fs) == 1 and self.should_inline(fs[0]) and fs[0].cls is not None and fs[0].kind not in ('staticmethod', 'classmethod'):
                r = self.inline(fs[0], [o] + args, kw, fs[0].cls)
                if r is not None:
                    return r
            mod, ref = self.world.modref(name)
            b = self.drop_defaults(name, dict(b)) if f is None else dict(b)
            b['@self'] = o
            if name in MUTATORS:
                # the receiver may as well be a built-in container
                flat = self.flat({'#%d' % i: a for i, a in enumerate(args)} | kw)
                for lf, g in self.guarded(o):
                    c0 = self.types.get(lf.term.fp)
                    if c0 is not None and self.world.find_method(c0, name) is not None:
                        continue
                    key = ('i', lf.term.fp)
                    c = self.hget(self.st.heap, key)
                    nc = self.grown(c, name, args, kw, flat)
                    self.st.heap[key] = nc if g is TRUE else ite(g, nc, c)
                if name in ('append', 'extend') and all(trivial(x) for x in fs):
                    return NONE
            return self.opaque_call('call:' + name, [], b, mod, ref, raising=True)
        if name in MUTATORS and not (name in ('add', 'remove', 'update') and False):
            b = {'#%d' % i: a for i, a in enumerate(args)}
            b.update(kw)
            flat = self.flat(b)
            ofp = o.fp
            r0 = self.reify(o)
            for lf, g in self.guarded(o):
                key = ('i', lf.term.fp)
                c = self.hget(self.st.heap, key)
                nc = self.grown(c, name, args, kw, flat)
                self.st.heap[key] = nc if g is TRUE else ite(g, nc, c)
            ch = '#o%d' % (ofp % 10**12)
            if name in ('write', 'close', 'flush', 'sync', 'start', 'stop', 'finish', 'detach', 'createDimension', 'createVariable', 'writelines', 'remove', 'pop', 'update', 'append', 'extend', 'add', 'clear', 'insert', 'sort', 'reverse', 'setncattr', 'setncatts', 'fill', 'resize', 'popitem', 'setdefault', 'discard', 'appendleft', 'popleft'):
                if name in ('write', 'close', 'flush', 'sync', 'detach', 'createDimension', 'createVariable', 'writelines'):
                    self.trace('m:' + name, [r0] + flat, {ch, '#io'}, {ch, '#io'})
            return dist('app', 'r:' + name, [r0] + flat)
        b = {'#%d' % i: a for i, a in enumerate(args)}
        b.update(kw)
        r = dist('app', '.' + name, [self.reify(o)] + self.flat(b))
        self.sum.exts.add('.' + name)
        return r

    def grown(self, c, name, args, kw, flat):
        """contents of a container after a method that changes it in place"""
        if name in ('append', 'extend') and len(args) == 1 and not kw:
            x = self.reify(args[0])
            return bind(lambda a: cat_terms(a, seqterm('list', (x,))), [c]) if name == 'append' else bind(cat_terms, [c, x])
        if name == 'update' and len(args) == 1 and not kw:
            a = self.contents(args[0])
            if all(x.term.kind == 'dict' for x in leaves(a)) and unionleafcount([a, c]) <= DIST_LIMIT:
                def f(ct, at):
                    r = leaf(ct)
                    for k, v in at.args:
                        r = self.stored(r, k, v)
                    return r
                return bind(f, [c, a])
        return dist('app', 'm:' + name, [c] + flat)

    def dict_view(self, t, kind):
        """opaque mapping (or literal dict term) -> iterable view"""
        if t.kind == 'dict':
            items = t.args
            if kind == 'keys':
                return leaf(seqterm('list', [k for k, _ in items]))
            if kind == 'values':
                return leaf(seqterm('list', [v for _, v in items]))
            return leaf(seqterm('list', [leaf(seqterm('tuple', kv)) for kv in items]))
        base = leaf(t)
        ln = app('len', base, isint=True)

        def desc(an):
            def ex(i):
                return sign_case(t_sub(ln.term, num(i)), FALSE, FALSE, TRUE)

            def key(i):
                return an.sel(base, L(i))
            if kind == 'keys':
                el = key
            elif kind == 'values':
                def el(i):
                    return an.sel(base, key(i))
            else:
                def el(i):
                    return leaf(seqterm('tuple', [key(i), an.sel(base, key(i))]))
            return an.K, False, ex, el
        return self.mkiter(kind, [base], desc)

    def container_method(self, t, name, args, kw):
        key = ('i', t.fp)
        c = self.content(t)
        r = None
        if name in ('append', 'extend', 'insert', 'add', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault'):
            if t.kind != 'obj':
                return None
            res = [NONE]
            a = args
            if name == 'append' and len(a) == 1:
                nc = bind(lambda ct: leaf(seqterm(ct.kind, ct.args + (a[0],))) if ct.kind in ('list', 'set') else cat_terms(ct, seqterm('list', (a[0],))), [c])
            elif name == 'add' and len(a) == 1:
                nc = bind(lambda ct: leaf(seqterm(ct.kind, ct.args + (a[0],))) if ct.kind == 'set' else dist('app', 'm:add', [leaf(ct), self.reify(a[0])]), [c])
            elif name == 'extend' and len(a) == 1:
                ac = self.contents(a[0])
                nc = bind(lambda ct, at: leaf(seqterm(ct.kind, ct.args + at.args)) if ct.kind == 'list' and at.kind in ('list', 'tuple', 'arr') else
                          bind(lambda at2: cat_terms(ct, at2), [self.reify(leaf(at))]), [c, ac])
            elif name == 'insert' and len(a) == 2:
                def f(ct, it):
                    k = numval(it)
                    if ct.kind == 'list' and k is not None:
                        l2 = list(ct.args)
                        l2.insert(int(k), a[1])
                        return leaf(seqterm('list', l2))
                    return dist('app', 'm:insert', [leaf(ct), leaf(it), self.reify(a[1])])
                nc = bind(f, [c, a[0]])
            elif name == 'update' and len(a) == 1 and not kw:
                ac = self.contents(a[0])
                def f(ct, at):
                    if ct.kind == 'dict' and at.kind == 'dict':
                        items = list(ct.args)
                        for k, v in at.args:
                            items = [x for x in items if x[0].fp != k.fp] + [(k, v)]
                        return leaf(dictterm(items))
                    if at.kind == 'dict':
                        r = leaf(ct)
                        for k, v in at.args:
                            r = self.stored(r, k, v)
                        return r
                    return leaf(mkapp('app', 'm:update', (leaf(ct), leaf(at))))
                nc = bind(f, [c, ac])
            elif name == 'pop' and t.kind == 'obj':
                if len(a) >= 1 and a[0].var is None and all(x.term.kind == 'dict' for x in leaves(c)):
                    def val(ct):
                        for k, v in ct.args:
                            if k.fp == a[0].fp:
                                return v
                        return a[1] if len(a) > 1 else app('KeyError', a[0])
                    res[0] = bind(val, [c])
                    nc = bind(lambda ct: leaf(dictterm([(k, v) for k, v in ct.args if k.fp != a[0].fp])), [c])
                elif not a and all(x.term.kind == 'list' and x.term.args for x in leaves(c)):
                    res[0] = bind(lambda ct: ct.args[-1], [c])
                    nc = bind(lambda ct: leaf(seqterm('list', ct.args[:-1])), [c])
                else:
                    flat = [self.reify(x) for x in a]
                    res[0] = dist('app', 'r:pop', [self.reify(c)] + flat)
                    nc = dist('app', 'm:pop', [self.reify(c)] + flat)
            elif name == 'clear':
                nc = bind(lambda ct: leaf(seqterm(ct.kind, ())) if ct.kind in ('list', 'set') else leaf(dictterm(())) if ct.kind == 'dict' else app('cleared'), [c])
            elif name == 'reverse':
                nc = bind(lambda ct: leaf(seqterm('list', tuple(reversed(ct.args)))) if ct.kind == 'list' else app('m:reverse', leaf(ct)), [c])
            else:
                flat = [self.reify(x) for x in a] + self.flat(kw)
                nc = dist('app', 'm:' + name, [self.reify(c)] + flat)
                res[0] = dist('app', 'r:' + name, [self.reify(c)] + flat)
            self.st.heap[key] = nc
            return res[0]
        if name in ('keys', 'values', 'items') and not args:
            return bind(lambda ct: self.dict_view(ct, name), [c])
        if name == 'get' and args:
            d = args[1] if len(args) > 1 else kw.get('default', NONE)

            def f(ct):
                if ct.kind == 'dict':
                    has = self.contains(args[0], leaf(ct))
                    return ite(has, self.sel(leaf(ct), args[0]), d)
                has = self.contains(args[0], leaf(ct))
                return ite(has, self.sel(leaf(ct), args[0]), d)
            return bind(f, [c])
        if name == 'copy' and not args:
            return self.fresh(c)
        if name == 'index' and len(args) == 1:
            return dist('app', '.index', [self.reify(c), self.reify(args[0])])
        if name in ('tolist', 'flatten', 'astype') and all(x.term.kind == 'arr' for x in leaves(c)):
            return self.fresh(c)
        return None

    def str_method(self, t, name, args, kw):
        if name == 'format' and t.kind == 'const':
            return self.strformat_brace(t.args, args, kw)
        if name == 'join' and len(args) == 1:
            c = self.contents(args[0])
            sep = leaf(t)

            def f(ct):
                if ct.kind in ('list', 'tuple'):
                    parts = []
                    for i, x in enumerate(ct.args):
                        if i:
                            parts.append(sep)
                        parts.append(self.reify(x))
                    return strlift(lambda *ps: strcat(ps), parts) if parts else L('')
                return leaf(mkapp('app', 'join', (sep, self.reify(leaf(ct)))))
            return bind(f, [c])
        if t.kind == 'const' and all(a.var is None and a.term.kind == 'const' for a in args) and not kw and name in ('startswith', 'endswith', 'replace', 'lower', 'upper', 'strip', 'split', 'rstrip', 'lstrip', 'isdigit', 'encode'):
            try:
                r = getattr(t.args, name)(*[a.term.args for a in args])
            except Exception:
                return None
            if isinstance(r, list):
                return self.fresh(leaf(seqterm('list', [L(x) for x in r])))
            return L(r)
        return None

    # ---------------------------------------------------------------- externals
    def call_ext(self, name, args, kw):
        n = EXT_ALIAS.get(name, name)
        m = getattr(self, 'x_' + n.replace('.', '_'), None)
        if m is not None:
            r = m(args, kw)
            if r is not None:
                return r
        self.sum.exts.add(n)
        if n in BOOL_EXT:
            b = dict(kw)
            for i, a in enumerate(args):
                b['#%d' % i] = a
            return self.truth(dist('app', n, self.flat(b)))
        eff = ext_effect(name)
        if name == 'open':
            eff = {'#io'}
        if name in ('rand', 'srand'):
            eff = {'#rng'}
        b = dict(kw)
        for i, a in enumerate(args):
            b['#%d' % i] = a
        if eff:
            return self.opaque_call('ext:' + n, [], b, eff, eff, raising=True)
        flat = self.flat(b)
        if n in SCALAR1 and len(args) == 1 and not kw:
            return self.arr_lift(lambda x: dist('app', n, [self.reify(x)]), [args[0]])
        isint = n in ('int', 'len', 'round')
        if n in SCALARN and not kw:
            return dist('app', n, [self.reify(a) for a in args], isint=isint)
        return dist('app', n, flat, isint=isint)

    def x_len(self, args, kw):
        c = self.contents(args[0])

        def f(ct):
            if ct.kind in ('list', 'tuple', 'dict', 'arr'):
                return L(len(ct.args))
            if ct.kind == 'const' and isinstance(ct.args, str):
                return L(len(ct.args))
            if ct.kind == 'iter' and ct.args[0] in ('keys', 'values', 'items'):
                return app('len', ct.args[1], isint=True)
            if ct.kind == 'upd' and all(a.var is None and a.term.kind == 'num' for a, _ in ct.extra.values()):
                return bind(f, [ct.args[1]])
            if ct.kind == 'updS' and ct.args[2].var is None and (ct.args[2].term.isint or ct.args[2].term.kind == 'slice'):
                return bind(f, [ct.args[1]])
            if ct.kind == 'iter' and ct.args[0] == 'range':
                lo, hi, stp = ct.args[1:]
                return leaf(mkapp('app', 'len', (leaf(ct),), isint=True))
            return leaf(mkapp('app', 'len', (leaf(ct),), isint=True))
        return bind(f, [c])

    def x_abs(self, args, kw):
        if len(args) != 1 or kw:
            return None
        return self.arr_lift(lambda a: bind(lambda t: sign_case(t, leaf(t_neg(t)), L(0), leaf(t)) if t.kind != 'obj' and not isinstance(t.args, bool) else app('abs', self.reify(leaf(t))), [a]) if len(a.nl) < 60 else app('abs', a), [args[0]])

    def minmax(self, args, kw, ismin):
        if kw:
            return None
        if len(args) == 1:
            c = self.contents(args[0])
            if c.var is None and c.term.kind in ('list', 'tuple', 'arr') and c.term.args:
                args = list(c.term.args)
            elif c.var is not None and unionleafcount([c]) <= 8 and all(x.term.kind in ('list', 'tuple', 'arr') and len(x.term.args) > 1 for x in leaves(c)):
                return bind(lambda t: self.minmax([leaf(t)], {}, ismin) or app('min' if ismin else 'max', self.reify(leaf(t))), [c])
            else:
                return None
        r = args[0]
        for a in args[1:]:
            if unionleafcount([r, a]) > 300:
                return None
            r = bind(lambda x, y: sign_case(t_sub(x, y), leaf(x), leaf(x), leaf(y)) if ismin else sign_case(t_sub(x, y), leaf(y), leaf(x), leaf(x)), [r, a])
        return r

    def x_min(self, args, kw):
        return self.minmax(args, kw, True)

    def x_max(self, args, kw):
        return self.minmax(args, kw, False)

    def x_numpy_min(self, args, kw):
        return self.npminmax(args, kw, True)

    def npminmax(self, args, kw, ismin):
        if len(args) != 1 or kw:
            return None

        def f(t):
            if t.kind == 'app' and t.args[0] == 'numpy.array' and len(t.args) == 3 and t.args[1].var is None and t.args[1].term.kind == 'const' and t.args[1].term.args == '#0':
                return self.npminmax([t.args[2]], {}, ismin)
            if t.kind in ('arr', 'list', 'tuple') and len(t.args) > 1:
                r = self.minmax([leaf(t)], {}, ismin)
                if r is not None:
                    return r
            return leaf(mkapp('app', 'numpy.min' if ismin else 'numpy.max', (L('#0'), leaf(t))))
        c = self.contents(args[0])
        if len(list(leaves(c))) > 8:
            return None
        return bind(f, [c])

    def x_numpy_max(self, args, kw):
        return self.npminmax(args, kw, False)

    def x_sum(self, args, kw):
        c = self.contents(args[0])
        if kw or len(args) > 2:
            return None

        def f(ct):
            if ct.kind in ('list', 'tuple', 'arr'):
                r = args[1] if len(args) > 1 else L(0)
                for x in ct.args:
                    r = self.binop(ast.Add(), r, x)
                return r
            return leaf(mkapp('app', 'sum', (leaf(ct),)))
        return bind(f, [c])

    def x_numpy_sum(self, args, kw):
        if len(args) == 1 and not kw and self.aslit(args[0]) is not None:
            return self.x_sum(args, kw)
        return None

    def x_numpy_dot(self, args, kw):
        def lit(v):
            a = self.aslit(v)
            if a is None:
                c = self.contents(v)
                if c.var is None and c.term.kind == 'list':
                    return c.term
            return a
        a, b = lit(args[0]), lit(args[1])
        if a is None or b is None:
            return None
        if all(self.rowlit(x) is not None for x in a.args) and a.args and self.rowlit(a.args[0]) is not None:
            out = []
            for row in a.args:
                out.append(self.dot(self.rowlit(row).args, b.args))
            return self.fresh(leaf(seqterm('arr', out)))
        if len(a.args) != len(b.args):
            return None
        return self.dot(a.args, b.args)

    def rowlit(self, v):
        if v.var is None and v.term.kind in ('obj', 'list', 'arr'):
            c = self.content(v.term)
            if c.var is None and c.term.kind in ('list', 'arr'):
                return c.term
        return None

    def dot(self, xs, ys):
        r = L(0)
        for x, y in zip(xs, ys):
            r = self.binop(ast.Add(), r, self.binop(ast.Mult(), x, y))
        return r

    def x_numpy_array(self, args, kw):
        if len(args) == 1 and not kw:
            if args[0].var is not None and 1 < unionleafcount(args) <= 6 and any(x.term.kind == 'obj' and self.rowlit(x) is not None for x in leaves(args[0])):
                return bind(lambda t: self.x_numpy_array([leaf(t)], kw) or app('numpy.array', L('#0'), self.reify(leaf(t))), args)
            c = self.contents(args[0])
            if c.var is None and c.term.kind in ('list', 'arr') and 0 < len(c.term.args) <= 16 and \
               all(not (x.var is None and x.term.kind in ('obj', 'list', 'tuple')) for x in c.term.args):
                return self.fresh(leaf(seqterm('arr', c.term.args)))
            if c.var is None and c.term.kind == 'list' and c.term.args and all(self.rowlit(x) is not None for x in c.term.args) and len(c.term.args) <= 8:
                return self.fresh(leaf(seqterm('arr', [self.fresh(leaf(seqterm('arr', self.rowlit(x).args))) for x in c.term.args])))
        return None

    def x_numpy_where(self, args, kw):
        if len(args) == 3:
            l = [self.aslit(a) for a in args]
            if any(x is not None for x in l):
                return self.arr_lift(lambda c, a, b: ite(self.truth(c), a, b), args)
        return None

    def x_and2(self, args, kw):
        if len(args) == 2 and allbool(args[0]) and allbool(args[1]):
            return and_(args[0], args[1])
        return None

    def x_or2(self, args, kw):
        if len(args) == 2 and allbool(args[0]) and allbool(args[1]):
            return or_(args[0], args[1])
        return None

    def x_not1(self, args, kw):
        if len(args) == 1 and allbool(args[0]):
            return not_(args[0])
        return None

    def anyall(self, args, isany):
        c = self.contents(args[0])

        def f(ct):
            if ct.kind in ('list', 'tuple', 'set', 'arr'):
                r = FALSE if isany else TRUE
                for x in ct.args:
                    b = self.truth(x)
                    r = or_(r, b) if isany else and_(r, b)
                return r
            return leaf(mkapp('app', 'any' if isany else 'all', (leaf(ct),)))
        if c.var is not None and allbool(c):
            # elementwise condition: any(c) is written as not all(not c)
            if isany:
                return not_(self.truth_term(mkapp('app', 'all', (not_(c),))))
            return self.truth_term(mkapp('app', 'all', (c,)))
        return bind(f, [c])

    def x_any(self, args, kw):
        return self.anyall(args, True) if len(args) == 1 and not kw else None

    def x_all(self, args, kw):
        return self.anyall(args, False) if len(args) == 1 and not kw else None

    def x_range(self, args, kw):
        if len(args) == 1:
            lo, hi, st = L(0), args[0], L(1)
        elif len(args) == 2:
            lo, hi, st = args[0], args[1], L(1)
        else:
            lo, hi, st = args
        ks = [numval(x.term) if x.var is None else None for x in (lo, hi, st)]
        if all(k is not None and k.denominator == 1 for k in ks) and ks[2] != 0:
            r = range(*[int(k) for k in ks])
            if len(r) <= 40:
                return leaf(seqterm('list', [L(i) for i in r]))

        def desc(an):
            def el(i):
                return an.binop(ast.Add(), lo, an.binop(ast.Mult(), L(i), st))

            def ex(i):
                up = an.compare(ast.Lt(), el(i), hi)
                k = ks[2]
                if k is not None and k > 0:
                    return up
                dn = an.compare(ast.Gt(), el(i), hi)
                if k is not None and k < 0:
                    return dn
                return ite(an.compare(ast.Gt(), st, L(0)), up, dn)
            return an.K, False, ex, el
        return self.mkiter('range', [lo, hi, st], desc)

    def x_enumerate(self, args, kw):
        x = args[0]
        start = args[1] if len(args) > 1 else kw.get('start', L(0))
        inner = self.iter_desc(x)

        def desc(an):
            n, fixed, ex, el = inner
            return n, fixed, ex, (lambda i: leaf(seqterm('tuple', [an.binop(ast.Add(), start, L(i)), el(i)])))
        return self.mkiter('enumerate', [self.reify(x), start], desc)

    def x_zip(self, args, kw):
        inner = [self.iter_desc(a) for a in args]

        def desc(an):
            fixed = all(d[1] for d in inner) or any(d[1] for d in inner)
            n = min([d[0] for d in inner if d[1]] or [an.K])
            allfixed = all(d[1] for d in inner)

            def ex(i):
                r = TRUE
                for d in inner:
                    r = and_(r, (TRUE if i < d[0] else FALSE) if d[1] else d[2](i))
                return r
            return n, fixed and (allfixed or True), ex, (lambda i: leaf(seqterm('tuple', [d[3](i) for d in inner])))
        return self.mkiter('zip', [self.reify(a) for a in args], desc)

    def x_reversed(self, args, kw):
        c = self.contents(args[0])
        if c.var is None and c.term.kind in ('list', 'tuple'):
            return leaf(seqterm('list', tuple(reversed(c.term.args))))
        return None

    def x_list(self, args, kw):
        if not args:
            return self.fresh(leaf(seqterm('list', ())))
        return self.collect(args[0], 'list')

    def x_tuple(self, args, kw):
        if not args:
            return leaf(seqterm('tuple', ()))
        r = self.collect(args[0], 'list')
        c = self.contents(r)
        if all(x.term.kind == 'list' for x in leaves(c)):
            return bind(lambda t: leaf(seqterm('tuple', t.args)), [c])
        return dist('app', 'tuple', [self.reify(args[0])])

    def collect(self, v, kind):
        c = self.contents(v)

        def ok(t):
            return t.kind in ('list', 'tuple', 'dict', 'set', 'arr') or t.kind == 'iter' and t.extra(self)[1]
        if all(ok(x.term) for x in leaves(c)):
            def f(t):
                if t.kind == 'iter':
                    n, fx, ex, el = t.extra(self)
                    r = leaf(seqterm('list', ()))
                    for i in range(n):
                        e = ex(i)
                        r2 = bind(lambda q: leaf(seqterm('list', q.args + (el(i),))), [r])
                        r = ite(e, r2, r)
                    return r
                if t.kind == 'dict':
                    return leaf(seqterm('list', [k for k, _ in t.args]))
                return leaf(seqterm('list', t.args))
            return self.fresh(bind(f, [c]))
        if c.var is None and c.term.kind == 'iter' and c.term.args[0] in ('enumerate', 'zip', 'keys', 'values', 'items', 'range', 'map', 'filter'):
            acc = self.fresh(leaf(seqterm('list', ())))

            def body(elem):
                key = ('i', acc.term.fp)
                self.st.heap[key] = bind(lambda t: leaf(seqterm('list', t.args + (elem,))), [self.st.heap[key]])
            if c.term.args[0] in ('keys',):
                return self.fresh(dist('app', 'list', [c.term.args[1]]))
            self.loop(self.iter_steps(c, body), [])
            return acc
        return self.fresh(dist('app', 'list', [self.reify(c)]))

    def x_dict(self, args, kw):
        if not args and '**' not in kw:
            return self.fresh(leaf(dictterm([(L(k), v) for k, v in kw.items()])))
        return None

    def x_collections_OrderedDict(self, args, kw):
        if not args and not kw:
            return self.fresh(leaf(dictterm(())))
        return None

    def x_set(self, args, kw):
        if not args:
            return self.fresh(leaf(seqterm('set', ())))
        return None

    def x_map(self, args, kw):
        if len(args) == 2:
            acc = self.fresh(leaf(seqterm('list', ())))

            def body(elem):
                v = self.call_value(args[0], [elem], {})
                key = ('i', acc.term.fp)
                self.st.heap[key] = bind(lambda t: leaf(seqterm('list', t.args + (v,))), [self.st.heap[key]])
            self.frames[-1].loops = self.frames[-1].loops
            self.loop(self.iter_steps(args[1], body), [])
            return acc
        if len(args) > 2 and not kw:
            acc = self.fresh(leaf(seqterm('list', ())))

            def body(elem):
                c = self.contents(elem)
                v = self.call_value(args[0], [self.sel(c, L(i)) for i in range(len(args) - 1)], {})
                key = ('i', acc.term.fp)
                self.st.heap[key] = bind(lambda t: leaf(seqterm('list', t.args + (v,))), [self.st.heap[key]])
            z = self.x_zip(args[1:], {})
            if z is None:
                return None
            self.loop(self.iter_steps(z, body), [])
            return acc
        return None

    def x_functools_reduce(self, args, kw):
        if len(args) != 3 or kw:
            return None
        acc = self.fresh(args[2])
        key = ('i', acc.term.fp)

        def body(elem):
            self.st.heap[key] = self.call_value(args[0], [self.st.heap[key], elem], {})
        self.loop(self.iter_steps(args[1], body), [])
        return self.st.heap[key]

    def x_filter(self, args, kw):
        if len(args) == 2:
            acc = self.fresh(leaf(seqterm('list', ())))

            def body(elem):
                c = self.truth(self.call_value(args[0], [elem], {}) if args[0] is not NONE else elem)
                key = ('i', acc.term.fp)
                cur = self.st.heap[key]
                self.st.heap[key] = ite(c, bind(lambda t: leaf(seqterm('list', t.args + (elem,))), [cur]), cur)
            self.loop(self.iter_steps(args[1], body), [])
            return acc
        return None

    def x_str(self, args, kw):
        if len(args) == 1 and not kw:
            return strlift(lambda x: x if x.var is None and x.term.kind in ('strcat',) or (x.var is None and x.term.kind == 'const' and isinstance(x.term.args, str)) else
                           leaf(seqterm('strcat', (x,))), [self.reify(args[0])])
        return None

    def x_int(self, args, kw):
        if len(args) == 1 and not kw:
            def f(t):
                k = numval(t)
                if k is not None:
                    return L(int(k))
                if t.isint:
                    return leaf(t)
                return leaf(mkapp('app', 'int', (self.reify(leaf(t)),), isint=True))
            return bind(f, [args[0]])
        return None

    def x_float(self, args, kw):
        if len(args) == 1:
            return bind(lambda t: leaf(t) if t.kind == 'num' else leaf(mkapp('app', 'float', (self.reify(leaf(t)),))), [args[0]])
        return None

    def x_bool(self, args, kw):
        return self.truth(args[0]) if len(args) == 1 else None

    def x_isinstance(self, args, kw):
        if len(args) != 2:
            self.do_raise('TypeError', None)
            return UNDEF
        o, c = args
        c = self.contents(c)

        def one(t, ct):
            n = ct.args if ct.kind in ('class', 'ext') else None
            k = {'list': 'list', 'dict': 'dict', 'set': 'set', 'tuple': 'tuple'}
            tt = t
            if t.kind == 'obj':
                cc = self.content(t)
                if cc.var is not None:
                    return bind(lambda q: one(q, ct) if q.kind != 'obj' else truthy_case(mkapp('app', 'isinstance', (leaf(q), leaf(ct))), FALSE, TRUE), [cc])
                tt = cc.term
                if tt.kind not in k and tt.kind != 'obj':
                    return one(tt, ct)
            if tt.kind in k and n is not None:
                return TRUE if n == k[tt.kind] else FALSE
            if tt.kind == 'const' and n is not None:
                v = tt.args
                if v is None:
                    return FALSE
                if isinstance(v, str):
                    return TRUE if n == 'str' else FALSE
                if isinstance(v, bool):
                    return TRUE if n in ('bool', 'int') else FALSE
            if tt.kind == 'strcat' and n is not None:
                return TRUE if n == 'str' else FALSE
            if tt.kind in ('poly', 'big') and n in ('tuple', 'list', 'dict', 'set', 'str'):
                return FALSE        # the result of arithmetic
            if tt.kind == 'new' and n is not None:
                cl = self.world.classes.get(tt.args[0])
                if cl is not None and ct.kind == 'class':
                    return TRUE if any(x.name == n for x in self.world.mro(cl)) else FALSE
            return truthy_case(mkapp('app', 'isinstance', (leaf(t), leaf(ct))), FALSE, TRUE)

        def f(t, ct):
            if ct.kind in ('tuple', 'list'):
                r = FALSE
                for x in ct.args:
                    r = or_(r, bind(lambda ctt: f(t, ctt), [self.contents(x)]))
                return r
            return one(t, ct)
        return bind(f, [o, c])

    def x_type(self, args, kw):
        if len(args) != 1:
            return None

        def f(t):
            if t.kind == 'new':
                return leaf(named('class', t.args[0]))
            if t.kind == 'const':
                n = {type(None): 'NoneType', bool: 'bool', str: 'str'}.get(type(t.args))
                if n:
                    return leaf(named('ext', n))
            tt = t
            if t.kind == 'obj':
                cc = self.content(t)
                if cc.var is not None:
                    return bind(f, [cc])
                tt = cc.term
            if tt.kind in ('list', 'dict', 'tuple', 'set'):
                return leaf(named('ext', tt.kind))
            return leaf(mkapp('app', 'type', (leaf(t),)))
        return bind(f, [args[0]])

    def x_hasattr(self, args, kw):
        return None

    def x_getattr(self, args, kw):
        n = args[1]
        if n.var is None and n.term.kind == 'const':
            v = self.attr(args[0], n.term.args)
            if len(args) == 3:
                return ite(self.call_ext('hasattr', [args[0], n], {}), v, args[2])
            return v
        o = self.reify(args[0])
        n = self.reify(n)
        if len(args) == 2 and n.var is None:
            def f(t):
                # reading back the attribute last set under this very name
                if t.kind == 'app' and t.args[0] == 'setattr' and t.args[2].fp == n.fp:
                    return t.args[3]
                return leaf(mkapp('app', 'getattr', (leaf(t), n)))
            if len(list(leaves(o))) <= DIST_LIMIT:
                return bind(f, [o])
        return dist('app', 'getattr', [o] + [self.reify(x) for x in args[1:]])

    def x_setattr(self, args, kw):
        o, n, v = args
        if n.var is None and n.term.kind == 'const':
            self.store_attr(o, n.term.args, v)
            return NONE
        for lf, g in self.guarded(o):
            key = ('i', lf.term.fp)
            c = self.hget(self.st.heap, key)
            nc = dist('app', 'setattr', [c, self.reify(n), self.reify(v)])
            self.st.heap[key] = nc if g is TRUE else ite(g, nc, c)
        return NONE

    def x_pow(self, args, kw):
        if len(args) == 2:
            return self.binop(ast.Pow(), args[0], args[1])
        return None

    def x_numpy_float64(self, args, kw):
        return None

    def x_callable(self, args, kw):
        if len(args) == 1 and unionleafcount(args) <= DIST_LIMIT and any(x.term.kind == 'ext' for x in leaves(args[0])):
            return bind(lambda t: TRUE if t.kind == 'ext' else self.truth(app('callable', L('#0'), self.reify(leaf(t)))), args)
        return None

    def x_sqrt(self, args, kw):
        if len(args) == 1:
            return self.arr_lift(lambda a: dist('app', 'sqrt', [a]), [args[0]])
        return None

    def x_radians(self, args, kw):
        if len(args) == 1:
            pi = leaf(sym('const:pi'))
            return self.binop(ast.Div(), self.binop(ast.Mult(), args[0], pi), L(180))
        return None

    def x_isnan(self, args, kw):
        if len(args) == 1 and self.opts.get('nan'):
            return not_(bind(lambda t: truthy_case(mkapp('app', 'notnan', (leaf(t),)), FALSE, TRUE), [args[0]]))
        return None


SCALAR1 = {'cos', 'sin', 'tan', 'exp', 'log', 'floor', 'ceil', 'acos', 'asin', 'sqrt', 'numpy.sign', 'isnan'}
SCALARN = SCALAR1 | {'atan2', 'pow', 'min', 'max', 'numpy.isclose', 'numpy.sign', 'len', 'any', 'all', 'sum', 'numpy.sum', 'numpy.any', 'numpy.all'}
