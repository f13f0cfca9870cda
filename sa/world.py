"""Program model: modules, classes, functions, imports, mod/ref sets (call-graph closure)."""
import ast
import os

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'setdefault', 'sort', 'reverse',
            'fill', 'write', 'close', 'add', 'discard', 'popitem', 'resize', 'detach', 'setncattr', 'sync', 'flush',
            'createDimension', 'createVariable', 'appendleft', 'popleft', 'setncatts', 'writelines', 'start', 'stop', 'finish'}
IGNORED_ROOTS = {'logger', 'warnings', 'logging'}


class Func:
    def __init__(self, name, qual, module, cls, node, lang='py'):
        self.name, self.qual, self.module, self.cls, self.node, self.lang = name, qual, module, cls, node, lang
        self.kind = 'function'
        for d in getattr(node, 'decorator_list', []):
            if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
                self.kind = d.id
            elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter'):
                self.kind = d.attr
            elif isinstance(d, ast.Name) and d.id == 'abstractmethod' or isinstance(d, ast.Attribute) and d.attr == 'abstractmethod':
                self.kind = self.kind
        self.mod = set()
        self.ref = set()
        self.calls = set()

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return 'Func(%s)' % self.qual

    @property
    def where(self):
        return '%s:%s' % (self.module.relpath, self.node.lineno)


class Class:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.methods = {}
        self.setters = {}
        self.attrs = {}      # class-level assignments name -> ast expr
        self.bases = []
        for b in node.bases:
            if isinstance(b, ast.Name):
                self.bases.append(b.id)
            elif isinstance(b, ast.Attribute):
                self.bases.append(b.attr)


class Module:
    def __init__(self, name, relpath, tree):
        self.name, self.relpath, self.tree = name, relpath, tree
        self.imports = {}   # local name -> dotted
        self.functions = {}
        self.classes = {}
        self.globals = {}   # name -> ast expr (single assignment) or None
        self.kernel_funcs = {}


def _collect_imports(mod, body, package):
    for st in body:
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    mod.imports[a.asname] = a.name
                else:
                    mod.imports[a.name.split('.')[0]] = a.name.split('.')[0]
        elif isinstance(st, ast.ImportFrom):
            base = st.module or ''
            if st.level:
                pk = package.split('.')
                pk = pk[:len(pk) - (st.level - 1)]
                base = '.'.join(pk + ([st.module] if st.module else []))
            for a in st.names:
                mod.imports[a.asname or a.name] = base + '.' + a.name
        elif isinstance(st, ast.Try):
            _collect_imports(mod, st.body, package)
        elif isinstance(st, ast.If):
            _collect_imports(mod, st.body, package)


class World:
    def __init__(self, root, label, with_c=True, skip=('examples',), c_defines=()):
        self.root = root
        self.label = label
        self.modules = {}
        self.classes = {}
        self.byname = {}     # function/method name -> [Func]
        self.byqual = {}     # 'module:qual' -> Func
        self.properties = {}
        self.cfuncs = {}
        self.ext_vocab = set()
        self.errors = []
        pk = os.path.join(root, 'parcels')
        for dp, dn, fn in sorted(os.walk(pk)):
            dn[:] = sorted(d for d in dn if d not in skip and not d.startswith(('.', '__')))
            for f in sorted(fn):
                if f.endswith('.py') and f != '_version.py':
                    self._load(os.path.join(dp, f))
        if with_c:
            from .cfront import load_c, CFrontError
            self.cerror = None
            try:
                load_c(self, c_defines)
            except (CFrontError, OSError, ValueError, KeyError) as e:
                self.cerror = str(e)[-500:] or repr(e)
                for n in [n for n, fs in self.byname.items() if any(f.lang == 'c' for f in fs)]:
                    self.byname[n] = [f for f in self.byname[n] if f.lang != 'c']
                self.cfuncs = {}
        self._modref()

    def int_attributes(self):
        """private attributes whose every assignment in the program is an integer literal or steps by one"""
        good, bad = set(), set()

        def isint(e):
            return isinstance(e, ast.Constant) and type(e.value) is int

        for m in self.modules.values():
            for n in ast.walk(m.tree if hasattr(m, 'tree') else m):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr.startswith('_'):
                    bad.add((n.attr, id(n)))
                if isinstance(n, ast.Assign) and isint(n.value) or isinstance(n, ast.AugAssign) and isint(n.value) and isinstance(n.op, (ast.Add, ast.Sub)):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Attribute):
                            good.add((t.attr, id(t)))
        no = {a for a, _ in bad - good}
        return {a for a, _ in good if a.startswith('_') and a not in no and a not in self.properties}

    # ------------------------------------------------------------ loading
    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, '.')
        package = name.rsplit('.', 1)[0]
        if name.endswith('.__init__'):
            name = package
        src = open(path, encoding='utf-8').read()
        tree = ast.parse(src)
        m = Module(name, rel, tree)
        m.package = package
        self.modules[name] = m
        _collect_imports(m, tree.body, package)
        assigned = {}
        for st in tree.body:
            self._toplevel(m, st, assigned)
        for k, v in assigned.items():
            m.globals[k] = v[0] if len(v) == 1 else None

    def _toplevel(self, m, st, assigned):
        if isinstance(st, ast.FunctionDef):
            f = Func(st.name, st.name, m, None, st)
            m.functions[st.name] = f
            self._add(f)
        elif isinstance(st, ast.ClassDef):
            c = Class(st.name, m, st)
            m.classes[st.name] = c
            self.classes.setdefault(st.name, c)
            for b in st.body:
                if isinstance(b, ast.FunctionDef):
                    f = Func(b.name, st.name + '.' + b.name, m, c, b)
                    if f.kind in ('setter', 'deleter'):
                        f.qual += '@' + f.kind
                        c.setters[b.name] = f
                    else:
                        c.methods[b.name] = f
                        if f.kind == 'property':
                            self.properties.setdefault(b.name, []).append(f)
                    self._add(f)
                elif isinstance(b, ast.Assign):
                    for t in b.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = b.value
                elif isinstance(b, ast.AnnAssign) and b.value is not None and isinstance(b.target, ast.Name):
                    c.attrs[b.target.id] = b.value
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    assigned.setdefault(t.id, []).append(st.value)
                elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts):
                    for a, b in zip(t.elts, st.value.elts):
                        if isinstance(a, ast.Name):
                            assigned.setdefault(a.id, []).append(b)
        elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
            assigned.setdefault(st.target.id, []).append(st.value)
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            assigned.setdefault(st.target.id, []).append(None)
        elif isinstance(st, ast.Try):
            for s in st.body:
                self._toplevel(m, s, assigned)
        elif isinstance(st, ast.If):
            for s in st.body + st.orelse:
                self._toplevel(m, s, assigned)

    def _add(self, f):
        self.byname.setdefault(f.name, []).append(f)
        if f.cls is not None and f.name == '__init__':
            self.byname.setdefault('__init__@' + f.cls.name, []).append(f)
        if f.kind == 'setter':
            self.byname.setdefault(f.name + '@set', []).append(f)
        self.byqual[f.module.relpath + ':' + f.qual] = f

    # ------------------------------------------------------------ resolution
    def resolve_import(self, dotted):
        """dotted name -> ('func',Func) | ('class',Class) | ('mod',Module) | ('global', Module, name) | ('ext', dotted)"""
        seen = set()
        while dotted not in seen:
            seen.add(dotted)
            if dotted in self.modules:
                return ('mod', self.modules[dotted])
            if '.' not in dotted:
                break
            mname, name = dotted.rsplit('.', 1)
            m = self.modules.get(mname)
            if m is None:
                break
            if name in m.functions:
                return ('func', m.functions[name])
            if name in m.classes:
                return ('class', m.classes[name])
            if name in m.globals:
                return ('global', m, name)
            if name in m.imports:
                dotted = m.imports[name]
                continue
            # star imports in package __init__
            for st in m.tree.body:
                if isinstance(st, ast.ImportFrom) and any(a.name == '*' for a in st.names):
                    base = st.module or ''
                    if st.level:
                        pkg = m.name.split('.') if m.relpath.endswith('__init__.py') else m.name.split('.')[:-1]
                        base = '.'.join(pkg[:len(pkg) - (st.level - 1)] + ([st.module] if st.module else []))
                    r = self.resolve_import(base + '.' + name)
                    if r[0] != 'ext':
                        return r
            return ('unknown', dotted)
        if dotted.startswith('parcels'):
            return ('unknown', dotted)
        return ('ext', dotted)

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            for b in c.bases:
                r = None
                if b in c.module.classes:
                    r = c.module.classes[b]
                elif b in c.module.imports:
                    x = self.resolve_import(c.module.imports[b])
                    if x[0] == 'class':
                        r = x[1]
                if r is None:
                    r = self.classes.get(b)
                if r is not None:
                    todo.append(r)
        return out

    def find_method(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_classattr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def subclass_of(self, name, base):
        c = self.classes.get(name)
        if c is None:
            return name == base
        return any(x.name == base for x in self.mro(c)) or base in ('Exception', 'BaseException') or \
            any(b == base or BUILTIN_EXC.get(b) == base for x in self.mro(c) for b in x.bases)

    # ------------------------------------------------------------ mod/ref
    def _modref(self):
        for fs in list(self.byname.values()):
            for f in fs:
                if f.lang == 'py' or f.lang == 'c':
                    self._local_modref(f)
        changed = True
        allf = [f for fs in self.byname.values() for f in fs]
        while changed:
            changed = False
            for f in allf:
                for c in f.calls:
                    if c == '__init__':
                        continue
                    for g in self.callees(c):
                        gm = {x for x in g.mod if x.startswith('#') and x != '#setattr'} if g.name == '__init__' else g.mod
                        if not gm <= f.mod or not g.ref <= f.ref:
                            f.mod |= gm
                            f.ref |= g.ref
                            changed = True

    def _local_modref(self, f):
        alias = {}
        params = set(f.params) | {a.arg for a in f.node.args.kwonlyargs}
        imports = f.module.imports if f.module else {}

        def base_attr(e):
            while isinstance(e, (ast.Subscript, ast.Starred)):
                e = e.value
            if isinstance(e, ast.Attribute):
                return e.attr
            if isinstance(e, ast.Name):
                if e.id in alias:
                    return alias[e.id]
                if e.id in params and e.id not in ('self', 'cls'):
                    return '@args'
            return None

        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                while isinstance(v, ast.Subscript):
                    v = v.value
                if isinstance(v, ast.Attribute):
                    alias[n.targets[0].id] = v.attr
            elif isinstance(n, ast.For) and isinstance(n.target, ast.Name):
                v = n.iter
                while isinstance(v, ast.Subscript):
                    v = v.value
                if isinstance(v, ast.Attribute):
                    alias[n.target.id] = v.attr
        def tgt(t):
            if isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    tgt(x)
            elif isinstance(t, ast.Starred):
                tgt(t.value)
            elif isinstance(t, ast.Attribute):
                f.mod.add(t.attr)
                f.calls.add(t.attr + '@set') if t.attr in self.properties else None
            elif isinstance(t, ast.Subscript):
                b = base_attr(t)
                if b:
                    f.mod.add(b)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, ast.AugAssign):
                tgt(n.target)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, (ast.For,)):
                tgt(n.target)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                f.ref.add(n.attr)
                if n.attr in self.properties:
                    f.calls.add(n.attr)
            elif isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute):
                    root = fn
                    while isinstance(root, ast.Attribute):
                        root = root.value
                    dotted = None
                    if isinstance(root, ast.Name) and root.id in imports:
                        dotted = imports[root.id]
                    if isinstance(root, ast.Name) and root.id in IGNORED_ROOTS:
                        continue
                    if dotted is not None and not dotted.startswith('parcels'):
                        full = ast.unparse(fn).replace(root.id, dotted, 1) if not isinstance(root, ast.Call) else fn.attr
                        self.ext_vocab.add(full)
                        eff = ext_effect(full)
                        f.mod |= eff
                        f.ref |= eff
                    else:
                        f.calls.add(fn.attr)
                        self.ext_vocab.add('.' + fn.attr)
                        if fn.attr in MUTATORS:
                            b = base_attr(fn.value)
                            if b:
                                f.mod.add(b)
                elif isinstance(fn, ast.Name):
                    if fn.id in imports and not imports[fn.id].startswith('parcels'):
                        self.ext_vocab.add(imports[fn.id])
                        eff = ext_effect(imports[fn.id])
                        f.mod |= eff
                        f.ref |= eff
                    elif fn.id in ('open', 'setattr', 'exec', 'delattr'):
                        f.mod.add({'open': '#io', 'setattr': '#setattr', 'exec': '#io', 'delattr': '#setattr'}[fn.id])
                    else:
                        self.ext_vocab.add(fn.id)
                        f.calls.add(fn.id)
                        if fn.id in self.classes:
                            f.calls.add('__init__@' + fn.id)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                f.mod.add('#yield')

    def callees(self, name):
        if name in ('visit', 'generic_visit'):
            return [f for n, fs in self.byname.items() if n.startswith('visit_') or n == name for f in fs]
        return self.byname.get(name, ())

    def modref(self, name):
        fs = self.callees(name)
        mod, ref = set(), set()
        for f in fs:
            mod |= f.mod
            ref |= f.ref
        return mod, ref


BUILTIN_EXC = {'RuntimeError': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception', 'KeyError': 'LookupError',
               'IndexError': 'LookupError', 'AttributeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'IOError': 'OSError',
               'OSError': 'Exception', 'ImportError': 'Exception', 'AssertionError': 'Exception', 'StopIteration': 'Exception',
               'SystemError': 'Exception', 'NameError': 'Exception', 'LookupError': 'Exception', 'ZeroDivisionError': 'Exception'}

IO_EXT = ('os.remove', 'os.makedirs', 'os.mkdir', 'os.rename', 'os.rmdir', 'os.unlink', 'os.replace', 'os.removedirs', 'shutil.', 'subprocess.', 'numpy.save',
          'pickle.', '_ctypes.', 'os.system', 'weakref.finalize', 'netCDF4.Dataset', 'numpy.load', 'io.open', 'json.dump')


def ext_effect(full):
    """effect channels of an external function"""
    if full.startswith(('numpy.random', 'random.')):
        return {'#rng'}
    for p in IO_EXT:
        if full.startswith(p):
            return {'#io'}
    return set()
