"""Development aid (not a check): tries the agreement engine on synthetic edits of single functions.
mode 'same': behaviour-preserving rewrites (engine must say equal); mode 'bug': small mutations (engine should say diff)."""
import ast
import copy
import random
import sys
import time
import collections
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from sa.world import World
from sa.agree import Agreement, dump, limited
from sa import agree


def neg(t):
    return ast.UnaryOp(ast.Not(), t)


class Same(ast.NodeTransformer):
    """rewrites that keep behaviour; each kind applied with probability p"""
    def __init__(self, rng, p, kinds):
        self.rng, self.p, self.kinds, self.n = rng, p, kinds, 0

    def hit(self, k):
        if k in self.kinds and self.rng.random() < self.p:
            self.n += 1
            return True
        return False

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and self.hit('swapif') and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If) and False):
            return ast.If(neg(n.test), n.orelse, n.body)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse and self.hit('nestif'):
            r = n.body
            for v in reversed(n.test.values):
                r = [ast.If(v, r, [])]
            return r[0]
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        ng = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        if len(n.ops) == 1 and type(n.ops[0]) in sw and self.hit('swapcmp'):
            return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()], [n.left])
        if len(n.ops) == 1 and type(n.ops[0]) in ng and self.hit('negcmp'):
            return neg(ast.Compare(n.left, [ng[type(n.ops[0])]()], n.comparators))
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if all(isinstance(v, (ast.Compare, ast.UnaryOp)) for v in n.values) and self.hit('demorgan'):
            return neg(ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), [neg(v) for v in n.values]))
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Mult, ast.Sub, ast.Div)) and self.hit('aug'):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value), lineno=0)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and isinstance(n.left, (ast.BinOp, ast.Name, ast.Attribute, ast.Subscript)) and isinstance(n.right, (ast.BinOp, ast.Name, ast.Attribute, ast.Subscript)) and self.hit('comm'):
            return ast.BinOp(n.right, n.op, n.left)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.hit('swapifexp'):
            return ast.IfExp(neg(n.test), n.orelse, n.body)
        return n


def rename_locals(fn):
    params = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    glob = {n for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
    st = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params - glob
    st |= {h.name for h in ast.walk(fn) if isinstance(h, ast.ExceptHandler) and h.name}
    inner = {x.name for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.Import, ast.ImportFrom)) and x is not fn and hasattr(x, 'name')}
    st -= inner
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in st:
            n.id = n.id + '_rn'
        elif isinstance(n, ast.ExceptHandler) and n.name in st:
            n.name += '_rn'
    return len(st)


class Tmp(ast.NodeTransformer):
    """introduce temporaries for assigned expressions and returned values"""
    def __init__(self, rng, p):
        self.rng, self.p, self.n = rng, p, 0

    def visit_Assign(self, n):
        self.generic_visit(n)
        if isinstance(n.value, (ast.BinOp, ast.Call, ast.Subscript, ast.Compare)) and self.rng.random() < self.p:
            self.n += 1
            v = 'tmp_%d' % self.n
            return [ast.Assign([ast.Name(v, ast.Store())], n.value, lineno=0), ast.Assign(n.targets, ast.Name(v, ast.Load()), lineno=0)]
        return n

    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, (ast.Constant, ast.Name)) and self.rng.random() < self.p:
            self.n += 1
            v = 'tmp_%d' % self.n
            return [ast.Assign([ast.Name(v, ast.Store())], n.value, lineno=0), ast.Return(ast.Name(v, ast.Load()))]
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if self.rng.random() < self.p:
            self.n += 1
            v = 'tmp_%d' % self.n
            return [ast.Assign([ast.Name(v, ast.Store())], n.test, lineno=0), ast.If(ast.Name(v, ast.Load()), n.body, n.orelse)]
        return n


class Loop(ast.NodeTransformer):
    """for i in range(n) -> while ; for x in xs -> for i in range(len(xs))"""
    def __init__(self):
        self.n = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if any(isinstance(x, ast.Continue) for b in n.body for x in ast.walk(b)) or n.orelse:
            return n
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and len(n.iter.args) == 1 and isinstance(n.target, ast.Name):
            self.n += 1
            i = 'w_%d' % self.n
            I = lambda: ast.Name(i, ast.Load())
            return [ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0), lineno=0),
                    ast.While(ast.Compare(I(), [ast.Lt()], [n.iter.args[0]]), [ast.Assign([n.target], I(), lineno=0)] + n.body + [ast.Assign([ast.Name(i, ast.Store())], ast.BinOp(I(), ast.Add(), ast.Constant(1)), lineno=0)], [])]
        return n


class Bug(ast.NodeTransformer):
    def __init__(self, target):
        self.k = -1
        self.target = target
        self.desc = None

    def take(self, desc):
        self.k += 1
        if self.k == self.target:
            self.desc = desc
            return True
        return False

    def visit_Raise(self, n):
        return n

    def visit_Call(self, n):
        r = n
        while isinstance(r, (ast.Attribute, ast.Call)):
            r = r.func if isinstance(r, ast.Call) else r.value
        if isinstance(r, ast.Name) and r.id in ('logger', 'warnings', 'print', 'warning_once'):
            return n
        self.generic_visit(n)
        if len(n.args) >= 2 and ast.dump(n.args[0]) != ast.dump(n.args[1]) and self.take('swap args'):
            n.args[0], n.args[1] = n.args[1], n.args[0]
        if n.keywords and self.take('drop kw %s' % n.keywords[-1].arg):
            n.keywords.pop()
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        if self.take('cmp'):
            n.ops[0] = m[type(n.ops[0])]()
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
        if type(n.op) in m and self.take('binop'):
            n.op = m[type(n.op)]()
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if self.take('boolop'):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and self.take('const'):
            return ast.Constant(n.value + 1)
        if isinstance(n.value, bool) and self.take('bool'):
            return ast.Constant(not n.value)
        return n

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return n
        r = self.visit(n.value)
        n.value = r
        if isinstance(n.value, ast.Call) and not isinstance(n.value.func, ast.Name) and 'logger' not in ast.dump(n.value.func) and 'warn' not in ast.dump(n.value.func) and self.take('drop stmt'):
            return ast.Pass()
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)) and self.take('drop assign'):
            return ast.Pass()
        return n


def main():
    mode = sys.argv[1]
    pats = sys.argv[3:]
    seed = int(sys.argv[2])
    rng = random.Random(seed)
    ref, impl = World('/verif/ref', 'ref'), World('/repo', 'impl')
    A = Agreement(ref, impl)
    tot = collections.Counter()
    bad = []
    fs = [f for q, f in sorted(impl.byqual.items()) if f.lang == 'py' and 'scripts' not in q and 'plotting' not in q and '_version' not in q]
    if pats:
        fs = [f for f in fs if any(p in f.module.relpath + ':' + f.qual for p in pats)]
    else:
        fs = rng.sample(fs, 60)
    for f in fs:
        rf = ref.byqual.get(f.module.relpath + ':' + f.qual)
        orig = f.node
        muts = []
        if mode == 'same':
            for kinds in (('swapif', 'nestif', 'negcmp', 'swapifexp'), ('swapcmp', 'demorgan', 'aug', 'comm'), 'rename', 'tmp', 'loop'):
                n = copy.deepcopy(agree.strip_doc(orig))
                if kinds == 'rename':
                    c = rename_locals(n)
                elif kinds == 'tmp':
                    t = Tmp(rng, .6)
                    n = t.visit(n)
                    c = t.n
                elif kinds == 'loop':
                    t = Loop()
                    n = t.visit(n)
                    c = t.n
                else:
                    t = Same(rng, .7, kinds)
                    n = t.visit(n)
                    c = t.n
                if c:
                    muts.append((str(kinds), n))
        else:
            t = Bug(-5)
            t.visit(copy.deepcopy(orig))
            tot_m = t.k + 1
            for k in rng.sample(range(tot_m), min(tot_m, 6)):
                n = copy.deepcopy(agree.strip_doc(orig))
                t = Bug(k)
                n.args_backup = None
                n.body = [x for b in n.body for x in [t.visit(b)]]
                if t.desc:
                    muts.append((t.desc, n))
        for desc, n in muts:
            ast.fix_missing_locations(n)
            n = ast.parse(ast.unparse(n)).body[0]
            f.node = n
            f.__dict__.pop('_dump', None)
            f.__dict__.pop('_free', None)
            A.cache.clear()
            t0 = time.time()
            r = A.decide(rf, f)
            dt = time.time() - t0
            tot[r['result']] += 1
            want = 'equal' if mode == 'same' else 'diff'
            if r['result'] != want or dt > 60:
                print('%-50s %-30s %s %.1fs %s' % (f.qual, desc, r['result'], dt, str({k: v for k, v in r.items() if k != 'result'})[:700]))
                if mode == 'bug':
                    import difflib
                    o = ast.unparse(agree.strip_doc(orig)).split('\n')
                    for l in difflib.unified_diff(o, ast.unparse(n).split('\n'), n=0, lineterm=''):
                        if not l.startswith(('---', '+++', '@@')):
                            print('        ', l[:220])
                sys.stdout.flush()
        f.node = orig
        f.__dict__.pop('_dump', None)
    print(tot)


main()
