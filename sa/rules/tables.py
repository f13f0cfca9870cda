"""Tables that the Python side and the C library write down separately: status codes, grid types, shared structures."""
import ast
import re

from . import rule


def camel(s):
    return re.sub(r'(?<=[a-z])(?=[A-Z])|(?<=[A-Z])(?=[A-Z][a-z])', '_', s).upper()


def classes(m):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ClassDef):
            yield n


def find_class(w, name):
    for m in w.modules.values():
        for c in classes(m):
            if c.name == name:
                return m, c
    return None, None


def constants(cls):
    """NAME = integer in the class body, following names bound before"""
    out = {}
    for s in cls.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            v = s.value
            if isinstance(v, ast.Constant) and isinstance(v.value, int):
                out[s.targets[0].id] = v.value
            elif isinstance(v, ast.Name) and v.id in out:
                out[s.targets[0].id] = out[v.id]
            else:
                out[s.targets[0].id] = None
    return out


def cenum(w, member):
    for lst in w.cenums.values():
        if any(n == member for n, _ in lst):
            return dict(lst)
    return {}


def symbol_map(w):
    """the map from Python status names to C names in the code generator, when it is written as a dictionary"""
    m, c = find_class(w, 'StatusCodeNode')
    if c is None:
        return None
    for s in c.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Dict):
            try:
                return {k.value: v.value for k, v in zip(s.value.keys, s.value.values)}
            except AttributeError:
                return None
    return None


def where(m, c):
    return '%s:%s' % (m.relpath.split('/')[-1], c.name)


def loc(m, c):
    return '%s:%d' % (m.relpath, c.lineno)


@rule('codes-agree', ('C06', 'C05', 'C10'),
      'every status code and every grid type has the same number in Python and in the C library, through the names the code generator writes, and no two members of a C enumeration share a number')
def codes_agree(impl, ref):
    if impl.cerror:
        return 0, [], ['C sources not analysable: ' + impl.cerror]
    obl, viol, notes = 0, [], []
    sm = symbol_map(impl)
    if sm is None:
        notes.append('the code generator\'s table of status names is not a plain dictionary')
    seen = {}
    for cls in ('StateCode', 'OperationCode', 'ErrorCode'):
        m, c = find_class(impl, cls)
        if c is None:
            notes.append('no class %s' % cls)
            continue
        for n, v in constants(c).items():
            if v is None or n.startswith('_'):
                continue
            cn = (sm or {}).get(n, camel(n))
            e = cenum(impl, 'SUCCESS')
            if cn in e:
                obl += 1
                if e[cn] != v:
                    viol.append((where(m, c), n, '%s.%s (%s) is %d but the code generator writes %s, which is %d in the C library' % (cls, n, loc(m, c), v, cn, e[cn])))
            elif n in constants(find_class(ref, cls)[1]):
                notes.append('%s.%s: no C name found' % (cls, n))
            obl += 1
            if v in seen and n not in ('',) and seen[v] != n:
                viol.append((where(m, c), n + '=', '%s (%s) and %s are both %d' % (n, loc(m, c), seen[v], v)))
            seen.setdefault(v, n)
    m, c = find_class(impl, 'GridCode')
    if c is not None:
        vals = constants(c)
        for n, v in vals.items():
            e = cenum(impl, camel(n))
            if v is None or not e:
                notes.append('GridCode.%s: no C name found' % n)
                continue
            obl += 1
            if e[camel(n)] != v:
                viol.append((where(m, c), n, 'GridCode.%s (%s) is %d but %s is %d in the C library' % (n, loc(m, c), v, camel(n), e[camel(n)])))
    for en, lst in impl.cenums.items():
        by = {}
        for n, v in lst:
            obl += 1
            if v in by:
                viol.append(('c:' + en, n, 'enumeration %s: %s and %s are both %d' % (en, n, by[v], v)))
            by[v] = n
    return obl, viol, notes


# ------------------------------------------------------------------ structures handed over
def pytype(e):
    if isinstance(e, ast.Attribute):
        return e.attr
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and len(e.args) == 1:
        f = e.func.id if isinstance(e.func, ast.Name) else e.func.attr
        if f == 'POINTER':
            return '*' + (pytype(e.args[0]) or '?')
    return None


def fields_of(cls):
    """[(name, type, line)] of _fields_, or None"""
    for s in cls.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '_fields_' for t in s.targets):
            return flat(s.value)
    return None


def flat(v):
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
        a, b = flat(v.left), flat(v.right)
        return None if a is None or b is None else a + b
    if not isinstance(v, (ast.List, ast.Tuple)):
        return None
    out = []
    for e in v.elts:
        if not (isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == 2 and isinstance(e.elts[0], ast.Constant)):
            return None
        t = pytype(e.elts[1])
        if t is None:
            return None
        out.append((e.elts[0].value, t, e.lineno))
    return out


CT = {'c_int': 'int', 'c_float': 'float', 'c_double': 'double', 'c_int32': 'int', 'c_int64': 'long', 'c_long': 'long'}


def same_type(py, c):
    """None when it cannot be told"""
    c = c.replace('const ', '').strip()
    if '*' in c:
        if py == 'c_void_p':
            return True
        if not py.startswith('*'):
            return False if py in CT else None
        base = py.strip('*')
        cb = c.replace('*', '').strip()
        if base in CT and cb in ('int', 'float', 'double', 'long'):
            return CT[base] == cb
        return True
    if py.startswith('*') or py == 'c_void_p':
        return False if c in ('int', 'float', 'double', 'long') else None
    if py in CT and c in ('int', 'float', 'double', 'long'):
        return CT[py] == c
    return None


@rule('structures-agree', ('C06', 'C10', 'C01'),
      'every structure that Python hands to the C library (field, grid, structured grid) has as many members, of the same types, at the same positions as the C declaration; no member is at the position of another')
def structures_agree(impl, ref):
    if impl.cerror:
        return 0, [], ['C sources not analysable: ' + impl.cerror]
    obl, viol, notes = 0, [], []
    for name, cf in sorted(impl.cstructs.items()):
        m, c = find_class(impl, name)
        if c is None:
            continue
        pf = fields_of(c)
        if pf is None:
            notes.append('%s: members not written as a list of pairs' % name)
            continue
        obl += 1
        if len(pf) != len(cf):
            viol.append((where(m, c), name, '%s (%s) has %d members, the C structure %d' % (name, loc(m, c), len(pf), len(cf))))
            continue
        pn, cn = [x[0] for x in pf], [x[0] for x in cf]
        for i, (p, q) in enumerate(zip(pf, cf)):
            obl += 1
            st = same_type(p[1], q[2])
            if st is False:
                viol.append((where(m, c), p[0], '%s.%s (line %d) is %s, but %s is at that position in the C structure, of type %s' % (name, p[0], p[2], p[1], q[0], q[1])))
            elif p[0] != q[0] and (p[0] in cn or q[0] in pn):
                viol.append((where(m, c), p[0], '%s.%s (line %d) is at the position of %s in the C structure' % (name, p[0], p[2], q[0])))
            elif st is None:
                notes.append('%s.%s: types %s and %s not comparable' % (name, p[0], p[1], q[1]))
    # the values: each argument that names the member it belongs to must stand at that member's position
    for m in impl.modules.values():
        for fn in ast.walk(m.tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            for call in ast.walk(fn):
                if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Name) and call.func.id in impl.cstructs) or call.keywords:
                    continue
                cm, c = find_class(impl, call.func.id)
                pf = c is not None and fields_of(c)
                if not pf or any(isinstance(a, ast.Starred) for a in call.args):
                    continue
                obl += 1
                pn = [x[0] for x in pf]
                if len(call.args) != len(pf):
                    viol.append((where(cm, c), 'args', '%s (%s:%d) built with %d values for %d members' % (call.func.id, m.relpath, call.lineno, len(call.args), len(pf))))
                    continue
                for i, a in enumerate(call.args):
                    if isinstance(a, (ast.Name, ast.Attribute)):
                        obl += 1
                        nm = a.id if isinstance(a, ast.Name) else a.attr
                        if nm in pn and pn[i] != nm:
                            viol.append((where(cm, c), 'arg ' + nm, '%s (%s:%d): %s is passed at the position of %s' % (call.func.id, m.relpath, call.lineno, nm, pn[i])))
    return obl, viol, notes
