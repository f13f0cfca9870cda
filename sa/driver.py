"""Runs one property's check: agreement of the anchored functions with the reviewed semantics, plus the property's own rules."""
import ast
import json
import os
import re
import select
import sys
import time

from .agree import Agreement, collect, dump, free_resolution, run_limited, same_source
from .props import EXCLUDE, FILES, anchored, key
from .world import World
from .terms import INTATTR

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = os.path.join(HERE, 'ref')
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHING = {'lru_cache', 'cache', 'cached_property', 'memoize', 'singledispatch'}


class Finding:
    def __init__(self, prop, where, what, detail=''):
        self.prop, self.where, self.what, self.detail = prop, where, what, detail

    def id(self):
        return '%s|%s' % (self.where, self.what)


def sources_differ(a, b, sub, exts):
    def read(root):
        out = {}
        for dp, dn, fn in os.walk(os.path.join(root, sub)):
            for f in fn:
                if f.endswith(exts):
                    p = os.path.join(dp, f)
                    out[os.path.relpath(p, root)] = open(p, 'rb').read()
        return out
    return read(a) != read(b)


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.deadline = self.t0 + (780 if tier == 'quick' else 3000)
        self.findings = []
        self.notes = []
        self.cov = {}
        self.stats = {'identical_source': 0, 'value_flow_equal': 0, 'inconclusive': 0, 'different': 0, 'contract_change': 0, 'no_counterpart': 0}

    def left(self):
        return self.deadline - time.time()

    def note(self, s):
        self.notes.append(s)

    # ---------------------------------------------------------------- agreement
    def load(self):
        self.ref = World(REF, 'ref')
        self.impl = World(REPO, 'repo')
        INTATTR.clear()
        INTATTR.update(self.ref.int_attributes())
        if self.impl.cerror:
            self.note('C sources of /repo not analysable by the front end: ' + self.impl.cerror)
        self.ag = Agreement(self.ref, self.impl)

    def allfuncs(self, w):
        seen, out = set(), []
        for fs in w.byname.values():
            for f in fs:
                if id(f) not in seen:
                    seen.add(id(f))
                    out.append(f)
        return sorted(out, key=lambda f: key(f))

    def pairs(self):
        """(ref function, impl function) obligations of this property"""
        ref, impl, ag = self.ref, self.impl, self.ag
        out = []
        gone = []
        funcs = anchored(self.prop, self.allfuncs(ref))
        self.anch = funcs
        for f in funcs:
            if f.lang == 'c' and impl.cerror:
                continue
            g = ag.find_impl(f)
            if g is None:
                gone.append(f)
            else:
                out.append((f, g, f.cls))
        # resolution through the class hierarchy: overrides added or removed
        names = {}
        for c in ref.classes.values():
            for d in ref.mro(c):
                for m in d.methods:
                    names.setdefault(c.name, set()).add(m)
        anch = {id(f) for f in funcs}
        for cname, ms in sorted(names.items()):
            c = ref.classes[cname]
            k = impl.classes.get(cname)
            if k is None:
                continue
            for m in sorted(ms):
                f, g = ref.find_method(c, m), impl.find_method(k, m)
                if f is None or id(f) not in anch or g is None:
                    continue
                gg = ag.find_impl(f)
                if gg is not g:
                    out.append((f, g, c))
        return out, gone

    def callers(self, w, f):
        """functions of w that may call f"""
        nm = f.name
        out = []
        for g in self.allfuncs(w):
            if g.lang == f.lang and g is not f and (nm in g.calls or (nm == '__init__' and f.cls is not None and ('__init__@' + f.cls.name) in g.calls)):
                out.append(g)
        return out

    def run_agreement(self):
        pairs, gone = self.pairs()
        todo = []
        thorough = self.tier == 'thorough'
        for f, g, c in pairs:
            dec = self.decorators(f, g)
            if dec:
                self.findings.append(Finding(self.prop, key(f), 'decorator', dec))
                continue
            if same_source(self.ref, self.impl, f, g):
                self.stats['identical_source'] += 1
                if not thorough:
                    continue
                todo.append((f, g, c, True))
            else:
                todo.append((f, g, c, False))
        for f in gone:
            self.stats['no_counterpart'] += 1
            cl = self.callers(self.ref, f)
            if not cl and not f.name.startswith('_') and (f.lang == 'py' and (f.cls is None or f.cls.name in self.impl.classes)):
                self.findings.append(Finding(self.prop, key(f), 'missing', '%s is part of the interface and no longer defined' % f.qual))
            else:
                # its behaviour must now be found in its callers
                for h in cl:
                    k = self.ag.find_impl(h)
                    if k is not None and not any(x[0] is h for x in todo):
                        todo.append((h, k, h.cls, False))
        res = self.decide_all(todo)
        self.results = []
        for (f, g, c, same), r in zip(todo, res):
            self.results.append((f, g, r))
            if r['result'] == 'equal':
                self.stats['value_flow_equal'] += 1
            elif r['result'] == 'diff':
                if same:
                    self.stats['inconclusive'] += 1
                    self.note('self comparison of %s: %s' % (key(f), r.get('text', '')[:200]))
                elif self.contract_change(f, g):
                    self.stats['contract_change'] += 1
                    self.note('%s differs, together with all of its callers, whose behaviour is unchanged' % key(f))
                else:
                    self.stats['different'] += 1
                    self.findings.append(Finding(self.prop, key(f), 'differs:' + str(r['what']), '%s (%s): %s' % (g.qual, g.where, r['text'])))
            else:
                self.stats['inconclusive'] += 1
                self.note('inconclusive %s: %s' % (key(f), str(r.get('why', ''))[:300]))

    def decorators(self, f, g):
        def names(x):
            out = set()
            for d in getattr(x.node, 'decorator_list', []):
                if isinstance(d, ast.Call):
                    d = d.func
                out.add(d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', '?'))
            return out
        new = (names(g) - names(f)) & CACHING
        if new and (f.ref or f.mod or f.cls is not None):
            return '%s (%s) is cached by %s although its result depends on mutable state' % (g.qual, g.where, ', '.join(sorted(new)))
        return None

    def job(self, f, g, c, same):
        ag = self.ag

        def run():
            budget = max(20, min(600, self.left() - 60))
            per = min(100, budget / 3)
            if same:
                return ag._decide_full(f, g, set(), per)
            r = ag.decide(f, g, timeout=per)
            if c is not None and f.cls is not None and c is not f.cls:
                pass
            return r
        return run

    def decide_all(self, todo, width=6):
        res = [None] * len(todo)
        # large functions first
        order = sorted(range(len(todo)), key=lambda i: -sum(1 for _ in ast.walk(todo[i][0].node)))
        live = {}
        self._changed_warm = self.ag.changed if todo else None
        while order or live:
            while order and len(live) < width:
                i = order.pop(0)
                if self.left() < 30:
                    res[i] = {'result': 'inconclusive', 'why': 'time'}
                    continue
                h = run_limited(self.job(*todo[i]), max(20, min(620, self.left() - 10)))
                live[h[1]] = (i, h)
            if not live:
                break
            rd, _, _ = select.select(list(live), [], [], 1.0)
            now = time.time()
            for fd in list(live):
                i, h = live[fd]
                if fd in rd or h[2] <= now:
                    v = collect(h)
                    res[i] = v[1] if v[0] == 'ok' else {'result': 'inconclusive', 'why': v[1]}
                    del live[fd]
        return res

    def contract_change(self, f, g):
        """an internal function may change together with everything that calls it, when the callers' own behaviour stays"""
        cl = self.callers(self.ref, f)
        pairs = []
        for h in cl:
            k = self.ag.find_impl(h)
            if k is None or k is g:
                return False
            if same_source(self.ref, self.impl, h, k):
                return False
            pairs.append((h, k))
        if not pairs:
            return False
        for h, k in pairs:
            r = collect(run_limited(lambda: self.ag.decide(h, k, extra_deep={f.name}, timeout=max(10, min(80, self.left() / 3))), max(20, min(400, self.left() - 10))))
            if r[0] == 'ok' and r[1]['result'] == 'diff':
                return False
        return True

    # ---------------------------------------------------------------- values of globals and class attributes
    def run_globals(self):
        from .flow import Analyzer, State, Frame
        from .compare import Differ, showpath
        from .terms import Budget, show_term
        ref, impl = self.ref, self.impl
        obl = 0
        items = []
        rels = set(FILES.get(self.prop, ())) | {f.module.relpath[8:] for f in self.anch if f.lang == 'py' and f.module.relpath.startswith('parcels/')}
        for rel in sorted(rels):
            mr = [m for m in ref.modules.values() if m.relpath == 'parcels/' + rel]
            mi = [m for m in impl.modules.values() if m.relpath == 'parcels/' + rel]
            if not mr or not mi:
                continue
            mr, mi = mr[0], mi[0]
            for n, v in mr.globals.items():
                if n.startswith('__') or v is None:
                    continue
                obl += 1
                w = mi.globals.get(n)
                if w is None and n in mi.imports:
                    x = impl.resolve_import(mi.imports[n])
                    if x[0] == 'global':
                        mi2, w = x[1], x[1].globals.get(x[2])
                        items.append((rel + ':' + n, mr, v, mi2, w))
                    continue
                items.append((rel + ':' + n, mr, v, mi, w))
            for cn, c in mr.classes.items():
                k = mi.classes.get(cn) or impl.classes.get(cn)
                if k is None:
                    continue
                for n, v in c.attrs.items():
                    if n.startswith('__'):
                        continue
                    obl += 1
                    x = impl.find_classattr(k, n)
                    w = x[1] if x else None
                    items.append(('%s:%s.%s' % (rel, cn, n), mr, v, x[0].module if x else mi, w))
                known = set(ref.classes)
                o1 = [x.name for x in ref.mro(c)]
                o2 = [x.name for x in impl.mro(k) if x.name in known]
                obl += 1
                if o1 != [x for x in o2 if x in o1]:
                    self.findings.append(Finding(self.prop, '%s:%s' % (rel, cn), 'bases', 'class hierarchy: reference %s, code %s' % (o1, o2)))
        self.cov['globals_and_class_attributes'] = obl
        for where, m1, v1, m2, v2 in items:
            if v2 is None:
                if v1 is not None and v2 is None and where.split(':')[1].split('.')[-1].startswith('_'):
                    continue
                # removed or assigned more than once
                nm = where.split(':')[1]
                if '.' not in nm and nm in m2.globals:
                    continue
                self.findings.append(Finding(self.prop, where, 'missing', 'no longer defined'))
                continue
            if ast.dump(v1) == ast.dump(v2) and self.same_names(m1, v1, m2, v2):
                continue

            def run():
                Budget.reset(300000)
                a = Analyzer(ref, self.ag.vocab)
                a.st = State({}, {})
                x = a.in_module(m1, v1)
                b = Analyzer(impl, self.ag.vocab)
                b.st = State({}, {})
                y = b.in_module(m2, v2)
                D = Differ({})
                r = D.probe(x, y) or D.diff(x, y, [])
                unk = list(a.sum.unknown) + list(b.sum.unknown)
                return (None if r is None else '%s -> %s' % (show_term(r[1], 4)[:200], show_term(r[2], 4)[:200]), unk)
            r = collect(run_limited(run, 60))
            if r[0] == 'ok' and r[1][0] is not None and not r[1][1]:
                self.findings.append(Finding(self.prop, where, 'value', r[1][0]))
            elif r[0] != 'ok':
                self.note('value of %s: %s' % (where, r[1]))

    def same_names(self, m1, v1, m2, v2):
        for n in {x.id for x in ast.walk(v1) if isinstance(x, ast.Name)}:
            a, b = m1.imports.get(n), m2.imports.get(n)
            if (a or b) and a != b and (n in m1.imports) != (n in m2.imports):
                return False
        return True

    # ---------------------------------------------------------------- double-coordinate build of the C library
    def run_double(self):
        cf = [f for f in self.anch if f.lang == 'c']
        if not cf or self.impl.cerror or not sources_differ(REF, REPO, 'parcels/include', ('.h',)):
            return
        r2 = World(REF, 'ref', c_defines=('DOUBLE_COORD_VARIABLES',))
        i2 = World(REPO, 'repo', c_defines=('DOUBLE_COORD_VARIABLES',))
        if i2.cerror:
            return
        old = self.ref, self.impl, self.ag
        self.ref, self.impl, self.ag = r2, i2, Agreement(r2, i2)
        try:
            todo = []
            for f in cf:
                a = r2.cfuncs.get(f.name)
                b = i2.cfuncs.get(f.name)
                if a is not None and b is not None and not same_source(r2, i2, a, b):
                    todo.append((a, b, None, False))
            for (f, g, c, s), r in zip(todo, self.decide_all(todo)):
                if r['result'] == 'diff' and not self.contract_change(f, g):
                    self.findings.append(Finding(self.prop, key(f), 'differs:' + str(r['what']), '[double coordinates] %s (%s): %s' % (g.qual, g.where, r['text'])))
        finally:
            self.ref, self.impl, self.ag = old

    # ---------------------------------------------------------------- the property's own rules
    def run_rules(self):
        try:
            from .rules import RULES
        except Exception as e:
            self.note('rules: %r' % e)
            return
        rs = []
        for rule in RULES.get(self.prop, ()):
            t = time.time()

            def run():
                out = rule.fn(self.impl, self.ref)
                return out
            r = collect(run_limited(run, max(30, min(300, self.left() - 10))))
            if r[0] != 'ok':
                self.note('rule %s gave no answer: %s' % (rule.name, str(r[1])[:400]))
                rs.append({'rule': rule.name, 'says': rule.doc, 'result': 'no answer'})
                continue
            obligations, viol, notes = r[1]
            rs.append({'rule': rule.name, 'says': rule.doc, 'obligations': obligations, 'violations': len(viol), 'seconds': round(time.time() - t, 2)})
            for where, what, detail in viol:
                self.findings.append(Finding(self.prop, where, 'rule %s:%s' % (rule.name, what), detail))
            for n in notes:
                self.note('rule %s: %s' % (rule.name, n))
        self.cov['rules'] = rs

    # ---------------------------------------------------------------- output
    def known(self):
        out = []
        p = os.path.join(HERE, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'known: property=(\S+) id=(.*?) :: (.*)$', l.strip())
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        return out

    def report(self):
        known = self.known()
        bad = []
        shown = set()
        for f in self.findings:
            hit = [k for k in known if k[0] == f.id()]
            if hit:
                if f.id() not in shown:
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, hit[0][1]))
                    shown.add(f.id())
            else:
                bad.append(f)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': self.coverage(), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(bad),
              'assumptions': ['the reviewed sources under /verif/ref state the intended behaviour (they are the pinned sources plus the recorded fixes)',
                              'functions of numpy, xarray, dask, netCDF4, cgen and the C library are uninterpreted, apart from algebraic identities of arithmetic, comparisons and containers',
                              'real arithmetic: reassociation is not a difference; conversions to float and int are',
                              'a function whose comparison is inconclusive (listed under notes) raises no alarm']}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        rp = os.path.join(HERE, 'evidence', self.prop + '.violation.txt')
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        if os.path.exists(rp):
            os.unlink(rp)
        if bad:
            with open(rp, 'w') as fh:
                for f in bad:
                    fh.write('%s\n  %s\n  %s\n' % (f.where, f.what, f.detail))
            for f in bad[:20]:
                print('%s: %s: %s' % (f.where, f.what, f.detail[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('property %s: %d functions anchored, %s' % (self.prop, len(getattr(self, 'anch', ())), self.stats))
        return 0

    def coverage(self):
        c = {'explanation': 'Static value-flow comparison of every anchored function of /repo with its reviewed semantics, and syntax/dataflow rules over the current sources; nothing is executed. '
                            'functions = definitions anchored to this property (Python and C); each is an obligation discharged either by identical normalised source and name resolution or by equality of its value-flow summary.',
             'functions': len(getattr(self, 'anch', ())), 'results': dict(self.stats), 'notes': self.notes[:60],
             'samples': [{'function': key(f), 'at': f.where} for f in getattr(self, 'anch', ())[:8]]}
        if getattr(self, 'results', None):
            c['compared'] = [{'function': key(f), 'result': r['result'], 'how': r.get('how') or r.get('why') or r.get('text', '')[:300]} for f, g, r in self.results[:200]]
        c.update(self.cov)
        return c

    def main(self):
        try:
            self.load()
            steps = (self.run_agreement, self.run_globals, self.run_double, self.run_rules)
        except SyntaxError as e:
            self.note('source does not parse: %s' % e)
            steps = ()
        for s in steps:
            try:
                s()
            except Exception as e:
                import traceback
                self.note('internal: %r %s' % (e, traceback.format_exc()[-800:]))
        return self.report()


def main(argv=None):
    import argparse
    import threading
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    threading.stack_size(256 << 20)
    out = []
    t = threading.Thread(target=lambda: out.append(Check(a.property, a.tier).main()))
    t.start()
    t.join()
    return out[0] if out else 0
