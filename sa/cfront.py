"""C front end: clang's type-checked AST of parcels/include/*.h, lowered to Python `ast` nodes so that the
same value-flow analysis applies.  Conversions are explicit in clang's tree: narrowing to float becomes
__f32(x), float->int becomes int(x); casts to pointer-to-array keep their dimensions as __view(p, dims)."""
import ast
import json
import os
import re
import subprocess

from .world import Class, Func, Module

HERE = os.path.dirname(os.path.abspath(__file__))


class CFor(ast.stmt):
    """loop with increment; first=True runs the body before the first test"""
    _fields = ('test', 'body', 'inc', 'first')

    def __init__(self, test=None, body=(), inc=(), first=False, lineno=0):
        self.test, self.body, self.inc, self.first, self.lineno = test, body, inc, first, lineno


class CFrontError(Exception):
    pass


def N(s):
    return ast.Name(s, ast.Load())


def call(f, *a):
    return ast.Call(N(f), list(a), [])


BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '%': ast.Mod, '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift}
CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq}
INTT = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|char|size_t|unsigned|bool|_Bool|unsigned long|unsigned int|long long)$')


class CDiv(ast.operator):
    pass


class CMod(ast.operator):
    pass


class Lower:
    def __init__(self, enums):
        self.enums = enums
        self.names = {}
        self.active = []
        self.boxed = set()
        self.pre = []
        self.tmp = 0
        self.unknown = []

    # -------------------------------------------------------------- helpers
    def qt(self, n):
        t = n.get('type', {})
        return t.get('desugaredQualType') or t.get('qualType', '')

    def isint(self, n):
        t = self.qt(n)
        return bool(INTT.match(t)) or t.startswith('enum ') or t in self.enumtypes

    enumtypes = ()

    def find_boxed(self, n):
        if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
            x = self.strip(n['inner'][0])
            if x['kind'] == 'DeclRefExpr' and not self.is_arr(x):
                self.boxed.add(x['referencedDecl']['id'])
        for c in n.get('inner', []):
            if c:
                self.find_boxed(c)

    def is_arr(self, x):
        return '[' in self.qt(x)

    def strip(self, n):
        while n['kind'] in ('ParenExpr',) or n['kind'] == 'ImplicitCastExpr' and n.get('castKind') in ('LValueToRValue', 'NoOp', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'BitCast'):
            n = n['inner'][0]
        return n

    def name_of(self, d):
        i = d['id']
        if i in self.names:
            return self.names[i]
        return d['name']

    def declare(self, d):
        nm = d['name']
        taken = {self.names[x] for sc in self.active for x in sc}
        base, k = nm, 2
        while nm in taken:
            nm = '%s_%d' % (base, k)
            k += 1
        self.names[d['id']] = nm
        self.active[-1].append(d['id'])
        return nm

    def dims(self, t):
        return re.findall(r'\[([^\]]*)\]', t)

    # -------------------------------------------------------------- expressions
    def ex(self, n):
        k = n['kind']
        f = getattr(self, 'x_' + k, None)
        if f is None:
            self.unknown.append(k)
            return call('__unknown_' + k)
        r = f(n)
        r.lineno = 0
        return r

    def x_ParenExpr(self, n):
        return self.ex(n['inner'][0])

    def x_ConstantExpr(self, n):
        return self.ex(n['inner'][0])

    def x_IntegerLiteral(self, n):
        return ast.Constant(int(n['value']))

    def x_CharacterLiteral(self, n):
        return ast.Constant(int(n['value']))

    def x_FloatingLiteral(self, n):
        return ast.Constant(float(n['value']))

    def x_StringLiteral(self, n):
        return ast.Constant(n['value'])

    def x_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            v = self.enums.get(d['name'])
            return ast.Constant(v) if v is not None else N(d['name'])
        nm = self.name_of(d)
        if d['kind'] == 'VarDecl' and d['id'] not in self.names:
            return N({'__const_pi': '__cpi', '__const_nan': '__cnan', '__const_inf': '__cinf'}.get(nm, nm))
        if d['id'] in self.boxed:
            return ast.Subscript(N(nm), ast.Constant(0), ast.Load())
        return N(nm)

    def x_ImplicitCastExpr(self, n):
        return self.cast(n)

    def x_CStyleCastExpr(self, n):
        return self.cast(n)

    def cast(self, n):
        ck = n.get('castKind')
        src = n['inner'][0]
        e = self.ex(src)
        t = self.qt(n)
        if ck == 'FloatingCast':
            if t.endswith('float') and self.qt(src).endswith('double'):
                return self.narrow(src, e)
            return e
        if ck == 'FloatingToIntegral':
            return call('int', e)
        if ck == 'LValueToRValue' and self.isint(n) and not isinstance(e, (ast.Name, ast.Constant)):
            return call('__asint', e)
        if ck == 'BitCast' and n['kind'] == 'CStyleCastExpr':
            ds = self.dims(t)
            if ds:
                try:
                    return call('__view', e, *[ast.parse(x, mode='eval').body for x in ds])
                except SyntaxError:
                    self.unknown.append('vla:' + t)
        return e

    def narrow(self, src, e):
        """double -> float: a value that was a float to begin with is unchanged"""
        s = src
        while s['kind'] == 'ParenExpr':
            s = s['inner'][0]
        if s['kind'] == 'ConditionalOperator' and isinstance(e, ast.IfExp):
            return ast.IfExp(e.test, self.narrow(s['inner'][1], e.body), self.narrow(s['inner'][2], e.orelse))
        if s['kind'] == 'ImplicitCastExpr' and s.get('castKind') == 'FloatingCast' and self.qt(s['inner'][0]).endswith('float'):
            return e
        return call('__f32', e)

    @staticmethod
    def intval(e):
        """the int a C truth value is, where it is stored"""
        if isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return ast.IfExp(e, ast.Constant(1), ast.Constant(0))
        return e

    def x_MemberExpr(self, n):
        return ast.Attribute(self.ex(n['inner'][0]), n['name'], ast.Load())

    def x_ArraySubscriptExpr(self, n):
        a, b = n['inner']
        if self.isint(a) and not self.isint(b):
            a, b = b, a
        return ast.Subscript(self.ex(a), self.ex(b), ast.Load())

    def x_UnaryOperator(self, n):
        op = n['opcode']
        x = n['inner'][0]
        if op == '*':
            return ast.Subscript(self.ex(x), ast.Constant(0), ast.Load())
        if op == '&':
            y = self.strip(x)
            if y['kind'] == 'DeclRefExpr':
                return N(self.name_of(y['referencedDecl']))
            if y['kind'] == 'ArraySubscriptExpr':
                s = self.ex(y)
                return call('__addr', s.value, s.slice)
            if y['kind'] == 'UnaryOperator' and y['opcode'] == '*':
                return self.ex(y['inner'][0])
            return call('__addrof', self.ex(y))
        if op in ('++', '--'):
            lv = self.ex(x)
            one = ast.BinOp(lv, ast.Add() if op == '++' else ast.Sub(), ast.Constant(1))
            if n.get('isPostfix'):
                self.tmp += 1
                t = '__t%d' % self.tmp
                self.pre.append(ast.Assign([ast.Name(t, ast.Store())], lv, lineno=0))
                self.pre.append(ast.Assign([self.store(lv)], one, lineno=0))
                return N(t)
            self.pre.append(ast.Assign([self.store(lv)], one, lineno=0))
            return lv
        if op == '-':
            return ast.UnaryOp(ast.USub(), self.ex(x))
        if op == '+':
            return self.ex(x)
        if op == '!':
            return ast.UnaryOp(ast.Not(), self.ex(x))
        if op == '~':
            return ast.UnaryOp(ast.Invert(), self.ex(x))
        self.unknown.append('unary' + op)
        return call('__unknown')

    def store(self, e):
        if isinstance(e, ast.Name):
            return ast.Name(e.id, ast.Store())
        if isinstance(e, ast.Attribute):
            return ast.Attribute(e.value, e.attr, ast.Store())
        if isinstance(e, ast.Subscript):
            return ast.Subscript(e.value, e.slice, ast.Store())
        if isinstance(e, ast.Call) and e.func.id in ('__asint', '__view'):
            return self.store(e.args[0])
        self.unknown.append('lvalue')
        return ast.Name('__lv', ast.Store())

    def x_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            v = self.intval(self.ex(b))
            lv = self.ex(a)
            self.pre.append(ast.Assign([self.store(lv)], v, lineno=self.line(n)))
            return lv
        if op == ',':
            self.ex(a)
            return self.ex(b)
        if op in ('&&', '||'):
            x = self.ex(a)
            save, self.pre = self.pre, []
            y = self.ex(b)
            if self.pre:
                self.unknown.append('effect in &&')
            self.pre = save + self.pre
            return ast.BoolOp(ast.And() if op == '&&' else ast.Or(), [x, y])
        x, y = self.ex(a), self.ex(b)
        if op in CMP:
            return ast.Compare(x, [CMP[op]()], [y])
        if op in BIN:
            return ast.BinOp(x, self.binop(op, self.isint(n)), y)
        self.unknown.append('binop' + op)
        return call('__unknown')

    def binop(self, op, isint):
        if op == '/' and isint:
            return CDiv()
        if op == '%' and isint:
            return CMod()
        return BIN[op]()

    def x_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = n['inner']
        v = self.ex(b)
        lv = self.ex(a)
        ct = n.get('computeResultType', {})
        ct = ct.get('desugaredQualType') or ct.get('qualType', '')
        e = ast.BinOp(lv, self.binop(op, bool(INTT.match(ct))), v)
        lt = self.qt(a)
        if lt.endswith('float') and ct.endswith('double'):
            e = call('__f32', e)
        elif INTT.match(lt) and ct in ('double', 'float'):
            e = call('int', e)
        self.pre.append(ast.Assign([self.store(lv)], e, lineno=self.line(n)))
        return lv

    def x_ConditionalOperator(self, n):
        c, a, b = n['inner']
        c = self.ex(c)
        save, self.pre = self.pre, []
        a, b = self.ex(a), self.ex(b)
        if self.pre:
            self.unknown.append('effect in ?:')
        self.pre = save + self.pre
        return ast.IfExp(c, a, b)

    def x_CallExpr(self, n):
        f = self.ex(n['inner'][0])
        args = [self.ex(a) for a in n['inner'][1:]]
        return ast.Call(f, args, [])

    def x_UnaryExprOrTypeTraitExpr(self, n):
        return call('__sizeof', ast.Constant(n.get('argType', {}).get('qualType', '?')))

    def x_ImplicitValueInitExpr(self, n):
        return ast.Constant(0)

    def init(self, n, ds):
        """initializer list -> nested list of the declared size"""
        if not ds:
            if n is None:
                return ast.Constant(0)
            if n['kind'] == 'InitListExpr':
                inner = n.get('inner') or [x for x in n.get('array_filler', []) if x['kind'] != 'ImplicitValueInitExpr']
                return self.init(inner[0] if inner else None, ds)
            return self.ex(n)
        try:
            size = int(ds[0])
        except ValueError:
            self.unknown.append('initdim')
            return call('__vla')
        inner = []
        if n is not None:
            inner = n.get('inner') or n.get('array_filler') or []
            inner = [x for x in inner if x['kind'] != 'ImplicitValueInitExpr']
        return ast.List([self.init(inner[i] if i < len(inner) else None, ds[1:]) for i in range(size)], ast.Load())

    def uninit(self, ds):
        if not ds:
            return N('__undef')
        if not ds[0].isdigit():
            return call('__vla')
        return ast.List([self.uninit(ds[1:]) for _ in range(int(ds[0]))], ast.Load())

    # -------------------------------------------------------------- statements
    def line(self, n):
        loc = n.get('range', {}).get('begin', {})
        loc = loc.get('expansionLoc', loc)
        return loc.get('line', 0) or 0

    def flush(self):
        p, self.pre = self.pre, []
        return p

    def body(self, n):
        if n is None or not n:
            return []
        if n['kind'] == 'CompoundStmt':
            self.active.append([])
            out = []
            for s in n.get('inner', []):
                out += self.st(s)
            self.active.pop()
            return out
        return self.st(n)

    def st(self, n):
        k = n['kind']
        f = getattr(self, 's_' + k, None)
        if f is not None:
            return f(n)
        e = self.ex(n)
        out = self.flush()
        if isinstance(e, ast.Call):
            out.append(ast.Expr(e, lineno=0))
        return out

    def s_CompoundStmt(self, n):
        return self.body(n)

    def s_NullStmt(self, n):
        return []

    def s_DeclStmt(self, n):
        out = []
        for d in n.get('inner', []):
            if d['kind'] != 'VarDecl':
                continue
            t = self.qt(d)
            ds = self.dims(t) if '(*' not in t else []
            inits = [x for x in d.get('inner', []) if x.get('kind') not in ('FullComment',)]
            if inits:
                e = self.init(inits[0], ds) if inits[0]['kind'] == 'InitListExpr' else self.intval(self.ex(inits[0]))
            else:
                e = self.uninit(ds)
            out += self.flush()
            nm = self.declare(d)
            if d['id'] in self.boxed:
                e = ast.List([e], ast.Load())
            out.append(ast.Assign([ast.Name(nm, ast.Store())], e, lineno=0))
        return out

    def s_ReturnStmt(self, n):
        e = self.intval(self.ex(n['inner'][0])) if n.get('inner') else None
        return self.flush() + [ast.Return(e, lineno=0)]

    def s_IfStmt(self, n):
        inner = n['inner']
        c = self.ex(inner[0])
        pre = self.flush()
        a = self.body(inner[1])
        b = self.body(inner[2]) if len(inner) > 2 else []
        return pre + [ast.If(c, a or [ast.Pass()], b, lineno=0)]

    def loopify(self, cond, body, inc, first):
        pre = []
        if cond is not None and cond:
            c = self.ex(cond)
            pre = self.flush()
        else:
            c = ast.Constant(True)
        if pre:
            # effects in the condition: evaluate inside the loop
            if first:
                self.unknown.append('effect in do-condition')
            body = pre + [ast.If(ast.UnaryOp(ast.Not(), c), [ast.Break()], [], lineno=0)] + body
            c = ast.Constant(True)
        return CFor(c, body or [ast.Pass()], inc, first)

    def s_WhileStmt(self, n):
        cond, body = n['inner'][-2], n['inner'][-1]
        return [self.loopify(cond, self.body(body), [], False)]

    def s_DoStmt(self, n):
        body, cond = n['inner']
        b = self.body(body)
        return [self.loopify(cond, b, [], True)]

    def s_ForStmt(self, n):
        init, _, cond, inc, body = n['inner']
        self.active.append([])
        out = self.st(init) if init else []
        b = self.body(body)
        i = self.st(inc) if inc else []
        r = self.loopify(cond, b, i, False)
        self.active.pop()
        return out + [r]

    def s_BreakStmt(self, n):
        return [ast.Break(lineno=0)]

    def s_ContinueStmt(self, n):
        return [ast.Continue(lineno=0)]

    def s_SwitchStmt(self, n):
        val = self.ex(n['inner'][0])
        out = self.flush()
        self.tmp += 1
        t = '__s%d' % self.tmp
        out.append(ast.Assign([ast.Name(t, ast.Store())], val, lineno=0))
        groups = []       # (labels or None for default, stmts)

        def label(s):
            labs = []
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    labs.append(self.ex(s['inner'][0]))
                    s = s['inner'][1]
                else:
                    labs.append(None)
                    s = s['inner'][0]
            return labs, s
        self.active.append([])
        for s in n['inner'][1].get('inner', []):
            if s['kind'] in ('CaseStmt', 'DefaultStmt'):
                labs, rest = label(s)
                groups.append((labs, self.st(rest)))
            elif groups:
                groups[-1][1].extend(self.st(s))
        self.active.pop()

        def ends(b):
            return bool(b) and isinstance(b[-1], (ast.Break, ast.Return, ast.Continue))
        bodies = []
        for i in range(len(groups)):
            b = []
            for g in groups[i:]:
                b = b + g[1]
                if ends(g[1]):
                    break
            if b and isinstance(b[-1], ast.Break):
                b = b[:-1]
            bodies.append(b)
        chain = []
        for (labs, _), b in zip(groups, bodies):
            if None in labs:
                chain = b
        nested = False
        for (labs, _), b in reversed(list(zip(groups, bodies))):
            labs = [x for x in labs if x is not None]
            nested = nested or any(self.has_break(x) for x in b)
            if labs:
                c = ast.Compare(N(t), [ast.In()], [ast.Tuple(labs, ast.Load())]) if len(labs) > 1 else ast.Compare(N(t), [ast.Eq()], [labs[0]])
                chain = [ast.If(c, b or [ast.Pass()], chain, lineno=0)]
        if nested:
            return out + [CFor(ast.Constant(False), chain, [], True)]
        return out + chain

    def has_break(self, s):
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, ast.If):
            return any(self.has_break(x) for x in s.body + s.orelse)
        return False


def parse_tu(include, defines=()):
    cmd = ['clang', '-fsyntax-only', '-nostdinc', '-w', '-x', 'c', '-I' + os.path.join(HERE, 'cstub'), '-I' + include] + ['-D' + d for d in defines] + \
          ['-Xclang', '-ast-dump=json', '-']
    src = '#include "parcels.h"\n'
    p = subprocess.run(cmd, input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode != 0:
        # a header our stand-ins do not have: use the system's
        cmd = [c for c in cmd if c not in ('-nostdinc', '-I' + os.path.join(HERE, 'cstub'))]
        q = subprocess.run(cmd, input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        if q.returncode != 0:
            raise CFrontError(p.stderr.decode()[-2000:])
        p = q
    return json.loads(p.stdout)


def load_c(w, defines=()):
    w.cconsts = {}
    w.cstructs = {}
    w.cenums = {}
    w.ctypedefs = {}
    include = os.path.join(w.root, 'parcels', 'include')
    if not os.path.isdir(include):
        return
    tu = parse_tu(include, defines)
    m = Module('c', 'parcels/include/parcels.h', ast.Module([], []))
    m.lang = 'c'
    m.package = 'c'
    w.cmodule = m
    enums, enumtypes = {}, set()
    curfile = ['']

    def value_of(n):
        if n.get('kind') == 'ConstantExpr' and 'value' in n:
            return int(n['value'])
        for c in n.get('inner', []):
            v = value_of(c)
            if v is not None:
                return v
        return int(n['value']) if n.get('kind') == 'IntegerLiteral' else None
    lastrec = None
    for d in tu['inner']:
        loc = d.get('loc', {})
        loc = loc.get('expansionLoc', loc)
        if 'file' in loc:
            curfile[0] = loc['file']
        if d['kind'] == 'EnumDecl':
            nxt = 0
            lst = []
            for c in d.get('inner', []):
                if c['kind'] == 'EnumConstantDecl':
                    v = value_of(c)
                    v = nxt if v is None else v
                    nxt = v + 1
                    enums[c['name']] = v
                    lst.append((c['name'], v))
            lastrec = ('enum', lst)
        elif d['kind'] == 'RecordDecl':
            lastrec = ('struct', [(c['name'], c['type']['qualType'], c['type'].get('desugaredQualType', c['type']['qualType'])) for c in d.get('inner', []) if c['kind'] == 'FieldDecl'])
        elif d['kind'] == 'TypedefDecl':
            t = d['type'].get('desugaredQualType', d['type']['qualType'])
            w.ctypedefs[d['name']] = t
            if d['type']['qualType'].startswith(('enum ', 'struct ')) and lastrec:
                (w.cenums if lastrec[0] == 'enum' else w.cstructs)[d['name']] = lastrec[1]
                if lastrec[0] == 'enum':
                    enumtypes.add(d['name'])
                lastrec = None
    for name in enumtypes:
        pass
    w.cunknown = {}
    for d in tu['inner']:
        loc = d.get('loc', {})
        loc = loc.get('expansionLoc', loc)
        if 'file' in loc:
            curfile[0] = loc['file']
        if curfile[0].startswith(('/usr/', '/lib')):
            continue
        if d['kind'] != 'FunctionDecl' or not any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', [])):
            continue
        lo = Lower(enums)
        lo.enumtypes = enumtypes
        body = [c for c in d['inner'] if c['kind'] == 'CompoundStmt'][0]
        lo.find_boxed(body)
        lo.active.append([])
        params, ints, pre, ptypes = [], set(), [], []
        for c in d['inner']:
            if c['kind'] == 'ParmVarDecl':
                nm = c.get('name', '_p%d' % len(params))
                lo.names[c['id']] = nm
                lo.active[-1].append(c['id'])
                params.append(nm)
                ptypes.append(c['type']['qualType'])
                if lo.isint(c):
                    ints.add(nm)
                if c['id'] in lo.boxed:
                    pre.append(ast.Assign([ast.Name(nm, ast.Store())], ast.List([N(nm)], ast.Load()), lineno=0))
        stmts = pre + lo.body(body)
        node = ast.FunctionDef(d['name'], ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), stmts or [ast.Pass()], [])
        node.lineno = loc.get('line', d.get('range', {}).get('begin', {}).get('line', 0)) or 0
        node.decorator_list = []
        mod = Module('c', os.path.relpath(curfile[0], w.root) if curfile[0].startswith(w.root) else 'parcels/include/' + os.path.basename(curfile[0]), ast.Module([], []))
        mod.lang = 'c'
        mod.package = 'c'
        f = Func(d['name'], d['name'], mod, None, node, lang='c')
        f.intparams = ints
        f.ptypes = ptypes
        f.rettype = d['type']['qualType'].split('(')[0].strip()
        f.cunknown = lo.unknown
        w.cfuncs[d['name']] = f
        w._add(f)
        if lo.unknown:
            w.cunknown[d['name']] = lo.unknown
    # which parameters does each function write through?
    for f in w.cfuncs.values():
        f.modparams = set()
    changed = True
    while changed:
        changed = False
        for f in w.cfuncs.values():
            ps = set(f.params)
            new = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    b = n
                    while isinstance(b, (ast.Subscript, ast.Call)):
                        b = b.value if isinstance(b, ast.Subscript) else b.args[0]
                    if isinstance(b, ast.Name) and b.id in ps:
                        new.add(b.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in w.cfuncs:
                    g = w.cfuncs[n.func.id]
                    for p, a in zip(g.params, n.args):
                        if p in g.modparams:
                            while isinstance(a, (ast.Subscript, ast.Call)):
                                a = a.value if isinstance(a, ast.Subscript) else (a.args[0] if a.args else None)
                            if isinstance(a, ast.Name) and a.id in ps:
                                new.add(a.id)
            if not new <= f.modparams:
                f.modparams |= new
                changed = True
