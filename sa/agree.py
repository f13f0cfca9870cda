"""Agreement of the code in /repo with the reviewed reference sources, function by function."""
import ast
import copy
import difflib
import os
import pickle
import resource
import select
import signal
import sys
import time

from .flow import Analyzer, EXT_ALIAS
from .terms import Blowup, Budget
from .compare import DISTINCT_EXT, Inconclusive, compare_summaries, names_in

BUDGET = 1500000


# ------------------------------------------------------------------ limited child processes
def run_limited(fn, timeout=120, mem=5 << 30):
    """run fn() in a forked child; -> ('ok', value) | ('fail', reason)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 1
        try:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            import threading
            threading.stack_size(512 << 20)
            sys.setrecursionlimit(60000)
            out = {}

            def body():
                try:
                    out['v'] = ('ok', fn())
                except Blowup:
                    out['v'] = ('fail', 'blowup')
                except MemoryError:
                    out['v'] = ('fail', 'memory')
                except RecursionError:
                    out['v'] = ('fail', 'recursion')
                except Inconclusive as e:
                    out['v'] = ('fail', str(e))
                except Exception as e:
                    import traceback
                    out['v'] = ('fail', 'internal: %r %s' % (e, traceback.format_exc()[-600:]))
            t = threading.Thread(target=body)
            t.start()
            t.join()
            data = pickle.dumps(out.get('v', ('fail', 'none')))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    return pid, r, time.time() + timeout


def collect(handle):
    pid, r, deadline = handle
    buf = b''
    ok = True
    while True:
        left = deadline - time.time()
        if left <= 0:
            ok = False
            break
        x, _, _ = select.select([r], [], [], left)
        if not x:
            ok = False
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    if not ok:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if not ok:
        return ('fail', 'timeout')
    try:
        return pickle.loads(buf)
    except Exception:
        return ('fail', 'crash')


def limited(fn, timeout=120, mem=5 << 30):
    return collect(run_limited(fn, timeout, mem))


# ------------------------------------------------------------------ syntactic identity (cheap pre-filter)
def strip_doc(node):
    n = copy.deepcopy(node)
    for x in ast.walk(n):
        b = getattr(x, 'body', None)
        if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            if len(b) > 1:
                x.body = b[1:]
            else:
                x.body = [ast.Pass()]
    return n


def dump(f):
    d = getattr(f, '_dump', None)
    if d is None:
        n = strip_doc(f.node)
        n.returns = None
        n.type_comment = None
        for a in ast.walk(n):
            if isinstance(a, ast.arg):
                a.annotation = None
        d = f._dump = ast.dump(alpha(n))
    return d


def free_resolution(world, f):
    """what the global names used by f denote"""
    d = getattr(f, '_free', None)
    if d is not None:
        return d
    loc = set(f.params) | {a.arg for a in f.node.args.kwonlyargs}
    used = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Store):
                loc.add(n.id)
            else:
                used.add(n.id)
    out = {}
    m = f.module
    for n in used - loc:
        if n in m.functions:
            out[n] = 'func:' + n
        elif n in m.classes:
            out[n] = 'class:' + n
        elif n in m.imports:
            r = world.resolve_import(m.imports[n])
            if r[0] == 'func':
                out[n] = 'func:' + r[1].qual
            elif r[0] == 'class':
                out[n] = 'class:' + r[1].name
            elif r[0] == 'mod':
                out[n] = 'mod:' + r[1].name
            elif r[0] == 'global':
                out[n] = 'global:' + r[2]
            elif r[0] == 'ext':
                out[n] = EXT_ALIAS.get(r[1], r[1])
            else:
                out[n] = '?' + r[1].rsplit('.', 1)[-1]
        elif n in m.globals:
            out[n] = 'global:' + n
        else:
            out[n] = n
    f._free = out
    return out


def same_source(ref, impl, f, g):
    return dump(f) == dump(g) and (f.lang == 'c' or free_resolution(ref, f) == free_resolution(impl, g)) and f.kind == g.kind and \
        getattr(f, 'ptypes', None) == getattr(g, 'ptypes', None) and getattr(f, 'rettype', None) == getattr(g, 'rettype', None)


# ------------------------------------------------------------------ worlds
class Agreement:
    def __init__(self, ref, impl):
        self.ref, self.impl = ref, impl
        self.vocab = set(ref.byname) & set(impl.byname)
        self.extvocab = {EXT_ALIAS.get(x, x) for x in ref.ext_vocab}
        self.refattrs = set()
        for m in ref.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    self.refattrs.add(n.attr)
        self.newattrs = set()
        for m in impl.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and n.attr not in self.refattrs:
                    self.newattrs.add(n.attr)
        refglob = {(m.name, g) for m in ref.modules.values() for g in m.globals}
        self.cache = {}
        self._changed = None
        self.stats = {'identical': 0, 'analysed': 0, 'equal': 0, 'inconclusive': 0, 'diff': 0}

    # -------------------------------------------------------------- pairing
    def find_impl(self, f):
        """implementation counterpart of reference function f (resolution through the class hierarchy / moved modules)"""
        impl = self.impl
        if f.lang == 'c':
            return impl.cfuncs.get(f.name)
        g = impl.byqual.get(f.module.relpath + ':' + f.qual)
        if g is not None:
            return g
        if f.cls is not None:
            c = None
            m = impl.modules.get(f.module.name)
            if m is not None:
                c = m.classes.get(f.cls.name)
            c = c or impl.classes.get(f.cls.name)
            if c is not None and '@' not in f.qual:
                return impl.find_method(c, f.name)
            return None
        c = [x for x in impl.byname.get(f.name, ()) if x.cls is None and x.qual == f.qual and x.lang == f.lang]
        return c[0] if len(c) == 1 else None

    def analyzer(self, world, f, cfg, pnames=None, bind=None):
        opts = {'pnames': pnames, 'bind': bind}
        if 'whileK' in cfg:
            opts['whileK'] = cfg['whileK']
        deep = cfg.get('deep', False)
        if cfg.get('deepnames'):
            deep = 'names'
            opts['deepnames'] = cfg['deepnames']
        a = Analyzer(world, self.vocab, deep=deep, K=cfg.get('K', 2), max_depth=cfg.get('depth', 8), opts=opts)
        return a

    def pnames(self, f, g):
        """parameter alignment: by name when possible, else by position"""
        fp, gp = f.params, g.params
        if set(fp) <= set(gp):
            return None
        d = {}
        for a, b in zip(fp, gp):
            d[b] = a
        return d

    def summary_pair(self, f, g, cfg, blk=None):
        Budget.reset(cfg.get('budget', BUDGET))
        pn = self.pnames(f, g)
        a = self.analyzer(self.ref, f, cfg)
        b = self.analyzer(self.impl, g, cfg, pn, extra_defaults(f, g, pn))
        selfcls_f = f.cls
        selfcls_g = g.cls
        if f.cls is not None and g.cls is not None and g.cls.name != f.cls.name:
            selfcls_g = self.impl.classes.get(f.cls.name, g.cls)
        if blk is None:
            S1 = a.analyze(f, selfcls_f)
            self.defaults(a, f, S1, {})
            Budget.reset(cfg.get('budget', BUDGET))
            S2 = b.analyze(g, selfcls_g)
            self.defaults(b, g, S2, pn or {})
        else:
            s1, s2, locs, outs = blk
            S1 = a.analyze_block(f, s1, locs[0], outs, selfcls_f)
            Budget.reset(cfg.get('budget', BUDGET))
            S2 = b.analyze_block(g, s2, locs[1], outs, selfcls_g)
        return S1, S2

    def defaults(self, an, f, S, pn):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        from .flow import State, Frame
        an.st = State({}, {})
        an.frames = [Frame(None, f.module, None)]
        pairs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in pairs:
            S.obs['default:' + pn.get(n, n)] = an.reify(an.default_value(d, f.module))

    def one(self, f, g, cfg, blk=None):
        """-> ('equal',) | ('diff', what, text, namesdiff) | ('unknown', why)"""
        S1, S2 = self.summary_pair(f, g, cfg, blk)
        if blk is None and f.lang == 'py':
            shared = [x for x in f.params if x in g.params]
            if shared != [x for x in g.params if x in f.params]:
                return ('diff', 'parameters', 'order of the parameters: reference (%s), code (%s)' % (', '.join(f.params), ', '.join(g.params)), set())
        d = compare_summaries(S1, S2, self.newattrs)
        if d is None:
            c1, c2 = changed_statements(f.node.body, g.node.body) if blk is None else changed_statements(blk[0], blk[1])
            if not (c1 <= S1.covered and c2 <= S2.covered):
                return ('vacuous',)       # a changed statement lies beyond the loop bound
            return ('equal',)
        unk = [x for x in S2.unknown] + [x for x in S1.unknown if x not in S2.unknown]
        newext = {x for x in S2.exts - S1.exts if x not in self.extvocab and x not in DISTINCT_EXT}
        n1, n2 = names_in(S1.obs.values()), names_in(S2.obs.values())
        nd = {k for k in set(n1) | set(n2) if k.startswith(('call:', 'callc:')) and n1.get(k, 0) != n2.get(k, 0)}
        nd = {k.split(':', 1)[1].split('.')[-1] for k in nd}
        if '#obj' in n1 or '#obj' in n2:
            unk.append('identity of a local object')
        if unk or newext:
            return ('unknown', 'constructs outside the model: %s' % sorted(set(unk) | newext), nd)
        return ('diff', d[0], d[1], nd)

    # -------------------------------------------------------------- decision for one pair
    def decide(self, f, g, extra_deep=(), timeout=100):
        """-> dict(result=equal|diff|inconclusive, ...)"""
        key = (f.module.relpath, f.qual, tuple(sorted(extra_deep)))
        if key in self.cache:
            return self.cache[key]
        r = self._decide(f, g, set(extra_deep), timeout)
        self.cache[key] = r
        return r

    def _decide_full(self, f, g, extra, timeout):
        return self._decide(f, g, extra, timeout, prefilter=False)

    def _decide(self, f, g, extra, timeout, prefilter=True):
        if prefilter and not extra and same_source(self.ref, self.impl, f, g):
            return {'result': 'equal', 'how': 'identical source'}
        if f.kind != g.kind and {f.kind, g.kind} & {'property', 'staticmethod', 'classmethod'}:
            if not (f.name.startswith('_') or {f.kind, g.kind} <= {'function', 'staticmethod'}):
                return {'result': 'diff', 'what': 'kind', 'text': 'reference is a %s, code a %s' % (f.kind, g.kind)}
        base = {'deepnames': extra} if extra else {}
        tried = []
        verdict = None
        weak = False
        for lab, kk in (('K=2', {'K': 2}), ('K=1, while 2', {'K': 1, 'whileK': 2}), ('K=1', {'K': 1})):
            if lab == 'K=1, while 2' and not has_while(f, g):
                continue
            cfg = dict(base, **kk)
            r = limited(lambda: self.one(f, g, cfg), timeout)
            tried.append((lab, r[0] if r[0] == 'fail' else r[1][0], r[1] if r[0] == 'fail' else ''))
            if r[0] == 'ok' and r[1][0] != 'vacuous':
                verdict = r[1]
                weak = lab == 'K=1' and has_loop(f, g)
                break
        if verdict is None:
            return self.regions(f, g, extra, timeout, tried)
        if verdict[0] == 'equal':
            if weak:
                # one iteration only: the changed regions must agree by themselves (arbitrary iteration)
                r = self.regions(f, g, extra, timeout, tried)
                if r['result'] == 'diff':
                    return r
                return {'result': 'equal', 'how': 'value-flow K=1; regions: ' + r['result'], 'tried': tried}
            return {'result': 'equal', 'how': 'value-flow %s' % lab, 'tried': tried}
        # callees that differ between the two: inline them on both sides
        names = set(extra)
        nd = set(verdict[-1]) | (self.changed & self.called(f, g))
        for _ in range(4):
            nd = {n for n in nd if n in self.vocab} - names
            if not nd:
                break
            names |= nd
            c2 = dict(cfg, deepnames=set(names))
            r = limited(lambda: self.one(f, g, c2), timeout)
            tried.append(('inline %s' % sorted(names), r[0] if r[0] == 'fail' else r[1][0], r[1] if r[0] == 'fail' else ''))
            if r[0] != 'ok' or r[1][0] == 'vacuous':
                break
            if r[1][0] == 'equal':
                return {'result': 'equal', 'how': 'value-flow with %s inlined' % sorted(names), 'tried': tried}
            nd = set(r[1][-1])
        if verdict[0] == 'unknown':
            return {'result': 'inconclusive', 'why': verdict[1], 'tried': tried}
        return {'result': 'diff', 'what': verdict[1], 'text': verdict[2], 'tried': tried}

    @property
    def changed(self):
        """names of functions whose source differs between the two trees"""
        if self._changed is None:
            c = set()
            for n in self.vocab:
                a = {(f.module.relpath, f.qual): f for f in self.ref.byname[n]}
                b = {(f.module.relpath, f.qual): f for f in self.impl.byname[n]}
                if set(a) != set(b) or any(not same_source(self.ref, self.impl, a[k], b[k]) for k in a):
                    c.add(n)
            self._changed = c
        return self._changed

    def called(self, *fs):
        out = set()
        for f in fs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute):
                    out.add(n.attr)
                elif isinstance(n, ast.Name):
                    out.add(n.id)
        return out

    # -------------------------------------------------------------- regions: too large as a whole
    def regions(self, f, g, extra, timeout, tried):
        """compare the differing statement lists one by one, enlarging a region that is not equal by itself"""
        n1, n2 = strip_doc(f.node), strip_doc(g.node)
        l1, l2 = all_names(n1), all_names(n2)
        deadline = time.time() + 4 * timeout

        def direct(s1, s2):
            outs = sorted(live_out(n1, s1, n2, s2))
            best = None
            for K in (2, 1):
                if time.time() > deadline:
                    return None
                cfg = {'K': K}
                if extra:
                    cfg['deepnames'] = extra
                r = limited(lambda: self.one(f, g, cfg, (s1, s2, (l1, l2), outs)), timeout)
                tried.append(('region of %d/%d statements K=%d' % (len(s1), len(s2), K), r[0] if r[0] == 'fail' else r[1][0], r[1] if r[0] == 'fail' else ''))
                if r[0] == 'ok' and r[1][0] != 'vacuous':
                    return r[1]
            return None

        def lists(a, b):
            """-> verdict of the smallest decided enlargement, None when nothing could be decided"""
            da, db = [ast.dump(x) for x in a], [ast.dump(x) for x in b]
            if da == db:
                return ('equal',)
            ops = [o for o in difflib.SequenceMatcher(None, da, db, autojunk=False).get_opcodes() if o[0] != 'equal']
            hunks = [(o[1], o[2], o[3], o[4]) for o in ops]
            last = None
            ok = True
            for i1, i2, j1, j2 in hunks:
                v = None
                if i2 - i1 == j2 - j1:
                    # pair statement by statement first
                    vs = [pair(x, y) for x, y in zip(a[i1:i2], b[j1:j2])]
                    if all(x == ('equal',) for x in vs):
                        v = ('equal',)
                    elif len(vs) == 1:
                        v = vs[0]
                    else:
                        v = direct(a[i1:i2], b[j1:j2])
                        if v is None:
                            v = next((x for x in vs if x is not None and x != ('equal',)), None)
                else:
                    v = direct(a[i1:i2], b[j1:j2])
                if v != ('equal',):
                    ok = False
                    last = v
                    break
            if ok:
                return ('equal',)
            i1, i2, j1, j2 = hunks[0][0], hunks[-1][1], hunks[0][2], hunks[-1][3]
            tried_here = {(hunks[0][0], hunks[0][1])}
            for lo, hi, lo2, hi2 in ((i1, i2, j1, j2), (0, len(a), 0, len(b))):
                if (lo, hi) in tried_here and len(hunks) == 1 and (lo, hi) == (i1, i2):
                    continue
                v = direct(a[lo:hi], b[lo2:hi2])
                if v is None:
                    break
                if v == ('equal',):
                    return v
                last = v
            return last

        def pair(p, q):
            if ast.dump(p) == ast.dump(q):
                return ('equal',)
            if type(p) is type(q):
                D = lambda x: [ast.dump(z) for z in x] if isinstance(x, list) else ast.dump(x)
                arms = None
                if isinstance(p, ast.If) and D(p.test) == D(q.test):
                    arms = ((p.body, q.body), (p.orelse, q.orelse))
                elif isinstance(p, ast.For) and D(p.target) == D(q.target) and D(p.iter) == D(q.iter) and not p.orelse and not q.orelse:
                    arms = ((p.body, q.body),)
                elif isinstance(p, ast.While) and D(p.test) == D(q.test) and not p.orelse and not q.orelse:
                    arms = ((p.body, q.body),)
                elif isinstance(p, ast.Try) and D(p.handlers + p.orelse + p.finalbody) == D(q.handlers + q.orelse + q.finalbody):
                    arms = ((p.body, q.body),)
                elif isinstance(p, ast.With) and D(p.items) == D(q.items):
                    arms = ((p.body, q.body),)
                if arms is not None and all(x and y or not x and not y for x, y in arms):
                    vs = [lists(x, y) for x, y in arms]
                    if all(v == ('equal',) for v in vs):
                        return ('equal',)
                    bad = [v for v in vs if v != ('equal',)]
                    d = direct([p], [q])
                    return d if d is not None else bad[0]
            return direct([p], [q])

        last = lists(n1.body, n2.body)
        if last is None:
            return {'result': 'inconclusive', 'why': 'too large', 'tried': tried}
        if last[0] == 'equal':
            return {'result': 'equal', 'how': 'value-flow of the changed regions', 'tried': tried}
        if last[0] == 'unknown':
            return {'result': 'inconclusive', 'why': last[1], 'tried': tried}
        return {'result': 'diff', 'what': last[1], 'text': last[2], 'tried': tried}


def changed_statements(a, b):
    """ids of the smallest statements of two statement lists that have no counterpart in the other"""
    out = (set(), set())

    def isdoc(s):
        return isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)

    def parts(s):
        return [x for x in (getattr(s, 'body', None), getattr(s, 'orelse', None), getattr(s, 'finalbody', None)) if isinstance(x, list)] + \
            [h.body for h in getattr(s, 'handlers', ())]

    def head(s):
        c = copy.copy(s)
        for n in ('body', 'orelse', 'finalbody'):
            if isinstance(getattr(c, n, None), list):
                setattr(c, n, [])
        if getattr(c, 'handlers', None):
            c.handlers = [ast.ExceptHandler(h.type, h.name, []) for h in c.handlers]
        return ast.dump(c)

    def lists(a, b):
        a, b = [x for x in a if not isdoc(x)], [x for x in b if not isdoc(x)]
        da, db = [ast.dump(x) for x in a], [ast.dump(x) for x in b]
        if da == db:
            return
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, da, db, autojunk=False).get_opcodes():
            if tag == 'equal':
                continue
            if i2 - i1 == j2 - j1 and all(type(x) is type(y) for x, y in zip(a[i1:i2], b[j1:j2])):
                for x, y in zip(a[i1:i2], b[j1:j2]):
                    if head(x) != head(y) or len(parts(x)) != len(parts(y)) or not parts(x):
                        out[0].add(id(x))
                        out[1].add(id(y))
                    if len(parts(x)) == len(parts(y)):
                        for p, q in zip(parts(x), parts(y)):
                            lists(p, q)
            else:
                out[0].update(id(x) for x in a[i1:i2])
                out[1].update(id(x) for x in b[j1:j2])
    lists(a, b)
    return out


def extra_defaults(f, g, pn):
    """parameters only the implementation has, with their defaults"""
    a = g.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    have = set(f.params) | {x.arg for x in f.node.args.kwonlyargs}
    if f.node.args.kwarg:
        return {}
    return {n: v for n, v in d.items() if (pn or {}).get(n, n) not in have}


def has_while(*fs):
    return any(isinstance(n, ast.While) or type(n).__name__ == 'CFor' for f in fs for n in ast.walk(f.node))


def has_loop(*fs):
    return any(isinstance(n, (ast.While, ast.For)) or type(n).__name__ == 'CFor' for f in fs for n in ast.walk(f.node))


def all_names(fn):
    out = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg:
        out.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        out.add(fn.args.kwarg.arg)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


def live_out(n1, s1, n2, s2):
    """locals assigned in a region that are read outside it in either version, or (loops) read anywhere when both versions have them"""
    def info(fn, stmts):
        inside = {id(x) for s in stmts for x in ast.walk(s)}
        assigned = {x.id for s in stmts for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        out, anyw = set(), set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                anyw.add(n.id)
                if id(n) not in inside:
                    out.add(n.id)
        return assigned, out, anyw
    a1, o1, r1 = info(n1, s1)
    a2, o2, r2 = info(n2, s2)
    return ((a1 | a2) & (o1 | o2)) | (a1 & a2 & r1 & r2)


def alpha(n):
    """rename locals by order of first occurrence (in place)"""
    params = {a.arg for a in ast.walk(n) if isinstance(a, ast.arg)}
    glob = {x for y in ast.walk(n) if isinstance(y, (ast.Global, ast.Nonlocal)) for x in y.names}
    inner = {x.name for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not n}
    inner |= {(al.asname or al.name).split('.')[0] for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for al in x.names}
    loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    loc |= {h.name for h in ast.walk(n) if isinstance(h, ast.ExceptHandler) and h.name}
    loc -= params | glob | inner
    m = {}
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and x.id in loc:
            x.id = m.setdefault(x.id, '_%d' % len(m))
        elif isinstance(x, ast.ExceptHandler) and x.name in loc:
            x.name = m.setdefault(x.name, '_%d' % len(m))
    return n
