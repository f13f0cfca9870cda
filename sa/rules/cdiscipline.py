"""Dataflow over the lowered C library: discipline of status codes, and undefined (NaN) positions."""
import ast

from . import rule
from ..cfront import CFor


def fwhere(f):
    return 'c:' + f.name


def calls_in(e):
    return [c for c in ast.walk(e) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name)]


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def statements(body):
    for s in body:
        yield s
        if isinstance(s, ast.If):
            yield from statements(s.body)
            yield from statements(s.orelse)
        elif isinstance(s, CFor):
            yield from statements(s.body)
            yield from statements(s.inc)
        elif isinstance(s, (ast.While, ast.For)):
            yield from statements(s.body)


def status_functions(w):
    """functions whose every result is a status code: constants, a variable assigned only from such, or such calls"""
    out = {f.name for f in w.cfuncs.values() if 'StatusCode' in (getattr(f, 'rettype', None) or '')}
    # a function that can only succeed has no status to look at
    sure = set(out)
    while True:
        drop = set()
        for n in sure:
            for s in statements(w.cfuncs[n].node.body):
                if isinstance(s, ast.Return) and not (isinstance(s.value, ast.Constant) and s.value.value == 0
                                                      or isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in sure):
                    drop.add(n)
        if not drop:
            break
        sure -= drop
    return out - sure


# ------------------------------------------------------------------ every status is looked at
class Pending:
    """forward dataflow: which variables hold the status of a call that nobody looked at yet"""

    def __init__(self, f, sf):
        self.f, self.sf = f, sf
        self.viol = []
        self.sites = 0

    def use(self, e, st):
        """names read in e are looked at"""
        if e is None:
            return st
        n = names(e)
        return frozenset(x for x in st if x[0] not in n)

    def nested(self, e, top):
        """status calls in e whose result is consumed inside an expression are looked at there"""
        for c in calls_in(e):
            if c.func.id in self.sf:
                self.sites += 1

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def stmt(self, s, st):
        if isinstance(s, ast.Assign) or isinstance(s, ast.AugAssign):
            v = s.value
            self.nested(v, True)
            st = self.use(v, st)
            tgt = s.targets[0] if isinstance(s, ast.Assign) else s.target
            if isinstance(tgt, ast.Name):
                lost = [x for x in st if x[0] == tgt.id]
                for x in lost:
                    self.viol.append((x[1], 'status in %s overwritten before it was looked at' % tgt.id))
                st = frozenset(x for x in st if x[0] != tgt.id)
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in self.sf:
                    st = st | {(tgt.id, v.func.id)}
            return st
        if isinstance(s, ast.Expr):
            v = s.value
            self.nested(v, True)
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in self.sf:
                self.viol.append((v.func.id, 'status of the call is dropped'))
            return self.use(v, st)
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.nested(s.value, True)
                rest = self.use(s.value, st)
            else:
                rest = st
            # leaving on a path on which another failure is already being returned is fine
            if not (isinstance(s.value, ast.Constant) and s.value.value != 0):
                for x in rest:
                    self.viol.append((x[1], 'function returns without looking at the status in %s' % x[0]))
            return None
        if isinstance(s, ast.If):
            self.nested(s.test, True)
            st = self.use(s.test, st)
            return self.join(self.block(s.body, st), self.block(s.orelse, st))
        if isinstance(s, CFor):
            first = s.first
            out = st
            if s.test is not None:
                self.nested(s.test, True)
            for _ in range(2):
                a = out if first else self.use(s.test, out)
                b = self.block(s.body, a)
                b = self.block(s.inc, b) if b is not None else None
                if first and isinstance(s.test, ast.Constant) and not s.test.value:
                    return b
                out = self.join(out, b)
            return self.use(s.test, out) if s.test is not None else out
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                st = self.use(e, st)
        return st


@rule('status-looked-at', ('C05',), 'every call in the C library of a function that returns a status either returns that status or looks at it before it is overwritten or the function ends')
def status_looked_at(impl, ref):
    if impl.cerror:
        return 0, [], ['C sources not analysable: ' + impl.cerror]
    sf = status_functions(impl)
    viol, sites = [], 0
    for f in impl.cfuncs.values():
        p = Pending(f, sf)
        try:
            st = p.block(f.node.body, frozenset())
        except RecursionError:
            continue
        if st:
            for x in st:
                p.viol.append((x[1], 'function ends without looking at the status in %s' % x[0]))
        sites += p.sites
        for callee, what in sorted(set(p.viol)):
            viol.append((fwhere(f), callee, '%s (%s): call of %s: %s' % (f.name, f.where, callee, what)))
    return sites, viol, ['%d functions return a status' % len(sf)]


# ------------------------------------------------------------------ undefined positions
NAN, TOP = 'nan', 'top'
KEEP = {'fabs', 'sqrt', 'cos', 'sin', 'tan', 'exp', 'log', 'acos', 'asin', 'atan', '__f32', 'floor', 'ceil'}


class TooMany(Exception):
    pass


class NaNFlow:
    """set-of-states abstract interpretation; a value is a known number, certainly NaN, or anything"""

    def __init__(self, w, limit=40000):
        self.w, self.steps = w, limit
        self.repeated = {}
        self.exact = set()  # names whose numeric value matters: compared for equality with a constant

    def twice(self, f):
        """conditions written more than once in f: only for those is the outcome remembered along a path"""
        if f.name not in self.repeated:
            n = {}
            for s in statements(f.node.body):
                if isinstance(s, ast.If):
                    k = ast.dump(s.test)
                    n[k] = n.get(k, 0) + 1
            self.repeated[f.name] = {k for k in n if n[k] > 1}
            for x in ast.walk(ast.Module(list(statements(f.node.body)), [])):
                if isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.Eq, ast.NotEq)) and isinstance(x.comparators[0], ast.Constant):
                    self.exact |= {y.id for y in [x.left] if isinstance(y, ast.Name)}
        return self.repeated[f.name]

    def key(self, e, al):
        """abstract location of an lvalue: name, or pointer name + '[0]' resolved through aliases"""
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and isinstance(e.slice, ast.Constant) and e.slice.value == 0:
            return al.get(e.value.id, e.value.id + '[0]')
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name):
            return e.value.id + '[*]'
        return None

    def ev(self, e, st, al):
        if isinstance(e, ast.Constant):
            return e.value if isinstance(e.value, (int, float)) and not isinstance(e.value, bool) else TOP
        if isinstance(e, ast.Name) or isinstance(e, ast.Subscript):
            k = self.key(e, al)
            return st.get(k, TOP) if k is not None else TOP
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                r = self.test(e.operand, st, al)
                return TOP if len(r) > 1 else int(not list(r)[0])
            v = self.ev(e.operand, st, al)
            if isinstance(v, (int, float)) and isinstance(e.op, ast.USub):
                return -v
            return v if v == NAN else TOP
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, st, al), self.ev(e.right, st, al)
            if isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)) and (a == NAN or b == NAN):
                return NAN
            if isinstance(a, int) and isinstance(b, int) and not isinstance(a, str):
                if isinstance(e.op, ast.Add):
                    return a + b
                if isinstance(e.op, ast.Sub):
                    return a - b
            return TOP
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in KEEP and len(e.args) == 1:
            return NAN if self.ev(e.args[0], st, al) == NAN else TOP
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('isnan', '__builtin_isnan', '__isnan') and len(e.args) == 1:
            return 1 if self.ev(e.args[0], st, al) == NAN else TOP
        if isinstance(e, ast.IfExp):
            r = {self.ev(e.body if o else e.orelse, st, al) for o in self.test(e.test, st, al)}
            return list(r)[0] if len(r) == 1 else TOP
        if isinstance(e, (ast.Compare, ast.BoolOp)):
            r = self.test(e, st, al)
            return int(list(r)[0]) if len(r) == 1 else TOP
        return TOP

    def test(self, e, st, al):
        """possible outcomes of a condition"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            out = set()
            for v in e.values:
                r = self.test(v, st, al)
                stop = not is_and
                if stop in r:
                    out.add(stop)
                if (not stop) not in r:
                    return out or {stop}
            out.add(is_and)
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return {not o for o in self.test(e.operand, st, al)}
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            if isinstance(e.ops[0], (ast.In, ast.NotIn)):
                return {True, False}
            a, b = self.ev(e.left, st, al), self.ev(e.comparators[0], st, al)
            op = e.ops[0]
            if a == NAN or b == NAN:
                return {isinstance(op, ast.NotEq)}
            if a != TOP and b != TOP:
                return {{ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b, ast.Eq: a == b, ast.NotEq: a != b}.get(type(op), True)}
            return {True, False}
        v = self.ev(e, st, al)
        if v == NAN:
            return {True}
        if v != TOP:
            return {bool(v)}
        return {True, False}

    def freeze(self, st):
        return frozenset(st.items())

    def block(self, body, sts, al, depth):
        """sts: set of frozen states -> (states falling through, [(value, state)] returned, states at break/continue)"""
        rets, esc = set(), set()
        for s in body:
            if not sts:
                break
            nxt = set()
            for fs in sts:
                self.steps -= 1
                if self.steps < 0:
                    raise TooMany()
                out, r, e = self.stmt(s, dict(fs), al, depth)
                nxt |= out
                rets |= r
                esc |= e
            sts = nxt
        return sts, rets, esc

    def assign(self, tgt, v, st, al):
        k = self.key(tgt, al)
        if k is None:
            return st
        st = dict(st)
        known = [x for x in st if x.split('|')[0] == k]
        for x in known:
            del st[x]
        # decisions about this variable no longer hold
        nm = k.split('[')[0]
        for x in [x for x in st if x.startswith('?') and nm in x[1:].split('#')[1].split(',')]:
            del st[x]
        if v != TOP and not k.endswith('[*]') and (v == NAN or k in self.exact):
            st[k] = v
        return st

    def call(self, c, st, al, depth):
        """-> set of (result, frozen state)"""
        f = self.w.cfuncs.get(c.func.id) if isinstance(c.func, ast.Name) else None
        if f is None or depth > 4:
            return {(self.ev(c, st, al), self.freeze(st))}
        ps = [a.arg for a in f.node.args.args]
        self.twice(f)
        if len(ps) != len(c.args):
            return {(TOP, self.freeze(st))}
        st2, al2 = {}, {}
        back = {}
        for i, (p, a) in enumerate(zip(ps, c.args)):
            loc = None
            if isinstance(a, ast.Name):
                loc = al.get(a.id, a.id + '[0]')
                if a.id + '[0]' not in st and a.id not in al and st.get(a.id, TOP) != TOP:
                    loc = None
            elif isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == '__addr' and len(a.args) == 2:
                loc = None
                base = a.args[0]
                if isinstance(base, ast.Name) and isinstance(a.args[1], ast.Constant) and a.args[1].value == 0:
                    loc = al.get(base.id, base.id + '[0]')
            v = self.ev(a, st, al)
            if v != TOP:
                st2[p] = v
            if loc is not None:
                back[p + '[0]'] = loc
                if st.get(loc, TOP) != TOP:
                    st2[p + '[0]'] = st[loc]
        fall, rets, esc = self.block(f.node.body, {self.freeze(st2)}, al2, depth + 1)
        out = set()
        for v, fs in rets | {(TOP, x) for x in fall}:
            d = dict(fs)
            st3 = dict(st)
            for p, loc in back.items():
                st3.pop(loc, None)
                if d.get(p, TOP) != TOP:
                    st3[loc] = d[p]
            out.add((v, self.freeze(st3)))
        return out

    def value(self, e, st, al, depth):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in self.w.cfuncs:
            return self.call(e, st, al, depth)
        return {(self.ev(e, st, al), self.freeze(st))}

    def decide(self, test, st, al):
        """outcomes with the states in which they are remembered"""
        r = self.test(test, st, al)
        if len(r) == 1:
            return [(list(r)[0], st)]
        nm = names(test)
        simple = not any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in KEEP | {'__asint'}) for x in ast.walk(test))
        simple = simple and any(ast.dump(test) in v for v in self.repeated.values())
        k = '?%s#%s' % (ast.dump(test), ','.join(sorted(nm))) if simple else ''
        if simple and k in st:
            return [(bool(st[k]), st)]
        return [(o, dict(st, **{k: int(o)}) if simple else st) for o in r]

    def stmt(self, s, st, al, depth):
        if isinstance(s, ast.Assign):
            tgt = s.targets[0]
            out = set()
            for v, fs in self.value(s.value, st, al, depth):
                out.add(self.freeze(self.assign(tgt, v, dict(fs), al)))
            return out, set(), set()
        if isinstance(s, ast.AugAssign):
            v = self.ev(ast.BinOp(s.target, s.op, s.value), st, al)
            return {self.freeze(self.assign(s.target, v, st, al))}, set(), set()
        if isinstance(s, ast.Expr):
            return {fs for _, fs in self.value(s.value, st, al, depth)}, set(), set()
        if isinstance(s, ast.Return):
            if s.value is None:
                return set(), {(TOP, self.freeze(st))}, set()
            return set(), self.value(s.value, st, al, depth), set()
        if isinstance(s, ast.If):
            out, rets, esc = set(), set(), set()
            for o, st2 in self.decide(s.test, st, al):
                a, b, c = self.block(s.body if o else s.orelse, {self.freeze(st2)}, al, depth)
                out |= a
                rets |= b
                esc |= c
            return out, rets, esc
        if isinstance(s, CFor):
            cur, done, rets = {self.freeze(st)}, set(), set()
            seen = set()
            first = s.first
            for n in range(6):
                body = set()
                for fs in cur:
                    outs = {True} if first else ({True} if s.test is None else self.test(s.test, dict(fs), al))
                    if False in outs:
                        done.add(fs)
                    if True in outs and fs not in seen:
                        seen.add(fs)
                        # a decision taken in one round says nothing about the next
                        body.add(frozenset(x for x in fs if not x[0].startswith('?')))
                first = False
                if not body:
                    break
                a, b, c = self.block(s.body, body, al, depth)
                rets |= b
                done |= {x[1] for x in c if x[0] == 'break'}
                a |= {x[1] for x in c if x[0] == 'continue'}
                a, b2, _ = self.block(s.inc, a, al, depth)
                rets |= b2
                cur = a
            return done, rets, set()
        if isinstance(s, ast.Break):
            return set(), set(), {('break', self.freeze(st))}
        if isinstance(s, ast.Continue):
            return set(), set(), {('continue', self.freeze(st))}
        return {self.freeze(st)}, set(), set()


@rule('undefined-position-rejected', ('C05', 'C03'),
      'with an undefined (NaN) longitude, latitude or depth no path of the C index search reports success with an undefined relative coordinate')
def undefined_position(impl, ref):
    if impl.cerror:
        return 0, [], ['C sources not analysable: ' + impl.cerror]
    viol, obl, notes = [], 0, []
    for fname in ('search_indices_rectilinear', 'search_indices_curvilinear'):
        f = impl.cfuncs.get(fname)
        if f is None:
            notes.append('%s is not defined' % fname)
            continue
        ps = [a.arg for a in f.node.args.args]
        rf = ref.cfuncs.get(fname)
        rps = [a.arg for a in rf.node.args.args]
        want = {'x', 'y', 'z', 'xsi', 'eta', 'zeta'}
        if len(ps) != len(rps):
            notes.append('%s has other parameters' % fname)
            continue
        nm = {r: p for r, p in zip(rps, ps) if r in want}
        for v in ('x', 'y', 'z'):
            obl += 1
            a = NaNFlow(impl)
            a.twice(f)
            try:
                _, rets, _ = a.block(f.node.body, {frozenset({(nm[v], NAN)})}, {}, 0)
            except TooMany:
                notes.append('%s with undefined %s: too many states' % (fname, v))
                continue
            for val, fs in rets:
                d = dict(fs)
                bad = [c for c in ('xsi', 'eta', 'zeta') if d.get(nm[c] + '[0]') == NAN]
                if val == 0 and bad:
                    viol.append((fwhere(f), v, '%s (%s) reports success for an undefined %s, with an undefined %s' % (fname, f.where, v, ', '.join(bad))))
                    break
    return obl, viol, notes
