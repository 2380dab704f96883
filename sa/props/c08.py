"""C08: optional packages stay optional.

The required packages are read from pyproject.toml; every other third-party
package imported anywhere in tslearn is optional.  For each optional package P
(and for all of them together) the whole package is evaluated abstractly in a
world where importing P raises ModuleNotFoundError:
  - every module whose documentation does not declare a dependency on P must
    finish executing, and every name its __all__ advertises must be bound;
  - a module that cannot be imported must fail with ImportError only;
  - every public function and every estimator method is then executed: no
    unbound name may be read, no attribute of P used, and no NameError,
    AttributeError or TypeError may be raised that the same call does not raise
    when P is installed."""
import re
import os
import sys
import multiprocessing
from ..common import *
from ..interp import Program

RULE = ('with any optional package absent every module still executes and binds its __all__, and no entry point reads an unbound '
        'name or gains a NameError / AttributeError / TypeError')
DIST = {'scikit-learn': 'sklearn', 'scikit_learn': 'sklearn'}
FAMILY = {'ImportError', 'ModuleNotFoundError'}
NEVER = {'NameError', 'UnboundLocalError', 'AttributeError', 'TypeError'}


def required(root):
    p = os.path.join(root, 'pyproject.toml')
    if not os.path.exists(p):
        p = '/repo/pyproject.toml'
    s = open(p, encoding='utf-8').read()
    m = re.search(r'^dependencies\s*=\s*\[(.*?)\]', s, re.S | re.M)
    if m is None:
        raise AnalysisBroken('pyproject.toml: no dependency list')
    r = set()
    for x in re.findall(r'"([A-Za-z0-9_.-]+)|\'([A-Za-z0-9_.-]+)', m.group(1)):
        n = re.split(r'[<>=!~ ;\[]', x[0] or x[1])[0]
        r.add(DIST.get(n, n.replace('-', '_')))
    return r


def documented(root):
    """packages of the public API: those docs/reference.rst documents"""
    for r in (root, '/repo'):
        f = os.path.join(r, 'docs', 'reference.rst')
        if os.path.exists(f):
            d = {'tslearn.' + x for x in re.findall(r'^   ([a-z_]+)$', open(f, encoding='utf-8').read(), re.M)}
            if len(d) >= 8:
                return d | {'tslearn.backend', 'tslearn.bases'}
    raise AnalysisBroken('docs/reference.rst does not list the public packages')


def optional(p):
    tops = {}
    for m, t in p.trees.items():
        for n in ast.walk(t):
            if isinstance(n, ast.Import):
                for a in n.names:
                    tops.setdefault(a.name.split('.')[0], set()).add(m)
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                tops.setdefault(n.module.split('.')[0], set()).add(m)
    std = set(sys.stdlib_module_names)
    return {k: v for k, v in tops.items() if k not in std and k != p.pkg and k != '__future__'}


def declares(p, mod, pkg):
    """the documentation of the module, or of a package around it, states the dependency"""
    parts = mod.split('.')
    for i in range(len(parts), 1, -1):
        t = p.trees.get('.'.join(parts[:i]))
        d = (ast.get_docstring(t) or '') if t is not None else ''
        for s in re.split(r'(?<=[.!?])\s+|\n\n', d):
            if re.search(r'depend|requir|need', s, re.I) and any(re.search(r'\b%s\b' % n, s, re.I) for n in (pkg, ALIAS.get(pkg, pkg))):
                return True
    return False


def mentions(p, key, pkg):
    """the documentation of the entry point (function, class, method, module or package) names the package"""
    parts = key.split('(')[0].split('.')
    m = len(parts)
    while m and '.'.join(parts[:m]) not in p.trees:
        m -= 1
    docs = [ast.get_docstring(p.trees['.'.join(parts[:i])]) or '' for i in range(2, m + 1) if '.'.join(parts[:i]) in p.trees]
    node = p.trees.get('.'.join(parts[:m]))
    names = parts[m:] + [x for x in key.split(')')[1:] for x in x.strip('.').split('.') if x]
    todo = [node]
    while names and todo:
        n = names.pop(0)
        todo = [x for t in todo for x in ast.walk(t) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == n]
        docs += [ast.get_docstring(x) or '' for x in todo]
        if not todo:
            # inherited: any definition of that name
            docs += [ast.get_docstring(x) or '' for t in p.trees.values() for x in ast.walk(t)
                     if isinstance(x, ast.FunctionDef) and x.name == n]
    return any(re.search(r'\b%s\b' % w, d, re.I) for d in docs for w in (pkg, ALIAS.get(pkg, pkg)))


ALIAS = {'torch': 'pytorch'}


class H(Hooks):
    def name_unbound(self, ip, name, node, fr, maybe):
        ip.emit('unbound', node, fr, 'reads the name `%s`, which is not bound' % name, key=name)


def world(job):
    """evaluate everything with the packages `absent` missing"""
    absent, modes = job
    viol = []
    exits = {}
    counts = {}
    failed = {}
    alls = []

    def count(k, n=1):
        counts[k] = counts.get(k, 0) + n

    for mode in modes:
        hk = H()
        ip = Interp(Program(REPO, absent=absent), hk, mode=mode)
        try:
            cat = Catalog(ip)
        except AnalysisBroken:
            if not absent:
                raise
            cat = None          # the modules that failed are reported below
        for e in ip.all_events():
            if e.rule in ('unbound', 'absent-use', 'import-missing'):
                viol.append((mode, 'import', e.rule, e.func, str(e.key), e.msg, where(ip, e)))
        for m in sorted(ip.p.trees):
            count('modules')
            if m in ip._failed:
                failed[m] = sorted(ip._failed[m] or ['ImportError'])
                continue
            v = ip.menv[m].get('__all__')
            if v is None:
                continue
            t = [n for n in ip.p.trees[m].body if isinstance(n, (ast.Assign, ast.AugAssign))]
            names = set()
            for o in v.o:
                seq = ip.key_seq(o, State({}, ip.gheap))
                for x in seq or ():
                    names |= {k for k in x.consts if isinstance(k, str)}
            for n in sorted(names):
                count('names advertised in __all__')
                x = ip.menv[m].get(n)
                if x is None and m + '.' + n in ip.p.trees:
                    x = TOP if m + '.' + n not in ip._failed else None
                if x is None or x.with_(c=x.c - {ABSENT}).bottom:
                    alls.append((m, n))
        if cat is None:
            continue
        heap0 = user_heap(ip.gheap, lambda p: E)

        def ran(key, ex, what):
            count('entry points executed')
            exits[(mode, key)] = sorted(ex)
            for e in ip.all_events():
                if e.rule in ('unbound', 'absent-use'):
                    viol.append((mode, what, e.rule, e.func, str(e.key), e.msg, where(ip, e)))
            ip.clear_events()
        ip.clear_events()
        for q, en in sorted(cat.funcs.items()):
            kw = {p: param_value(p, ip.default_of(en.func, p), en.opts.get(p), mode=mode, typ=en.types.get(p)) for p in en.params}
            r, st, ex = ip.run_function(obj(en.func), [], kw, heap0, node=en.func.node)
            ran(q, ex, q)
        for q, c in sorted(cat.classes.items()):
            if cat.is_estimator(c) or c.name.startswith('_'):
                continue
            f = cat.init_func(c)
            if f is None:
                continue
            L = Life(ip, cat, c, mode)
            r, h, ex = L.construct(heap0, {})
            ran(q, ex, q)
            if r is None or main_ref(r) is None:
                continue
            for m in sorted(cat.methods(c)):
                if m.startswith('_') or L.is_prop(m):
                    continue
                rr, st, ex = L.run(m, r, h)
                ran(q + '.' + m, ex, q + '.' + m)
        if mode == 'pytorch':
            continue
        for c in cat.estimators():
            L = Life(ip, cat, c, mode)
            for cfg in configs(L):
                r, h, ex = L.construct(heap0, with_values(cfg, L))
                cs = c.qual + '(' + cfg_str(cfg) + ')'
                ran(cs, ex, cs)
                if r is None:
                    continue
                rr, st, ex = L.run('fit', r, h)
                ran(cs + '.fit', ex, cs + '.fit')
                if st is None:
                    continue
                for m in L.queries() + [x for x in SAVE_METHODS if L.has(x)]:
                    rr, st2, ex = L.run(m, r, st.heap)
                    ran(cs + '.' + m, ex, cs + '.' + m)
                for m in ('from_json', 'from_hdf5', 'from_pickle'):
                    f = cat.method(c, m)
                    if f is not None:
                        rr, st2, ex = ip.run_function(obj(T('bound', obj(c), f)), [TOP], {}, st.heap, node=f.node)
                        ran(cs + '.' + m, ex, cs + '.' + m)
            ip.memo.clear()
    return absent, viol, exits, counts, failed, alls


def run(rep):
    p = Program(REPO)
    tops = optional(p)
    req = required(REPO)
    opt = sorted(k for k in tops if k not in req)
    if not {'torch', 'keras', 'h5py'} <= set(opt):
        raise AnalysisBroken('optional packages not found: %s' % opt)
    public = documented(REPO)
    worlds = [((), ('numpy', 'pytorch'))] + [((x,), ('numpy',) if x == 'torch' else ('numpy', 'pytorch')) for x in opt] + [(tuple(opt), ('numpy',))]
    with multiprocessing.Pool(min(8, len(worlds))) as pool:
        res = pool.map(world, worlds, chunksize=1)
    base = res[0]
    base_exits = base[2]
    base_viol = {(v[0],) + v[2:5] for v in base[1]}
    for v in base[1]:
        if v[2] == 'import-missing':
            rep.violation('import:%s:%s' % (v[3], v[4]), '%s' % v[5], v[6])
    for m, n in base[5]:
        rep.violation('all:%s:%s' % (m, n), '%s: __all__ names `%s`, which the module does not define' % (m, n), m)
    for m, ex in base[4].items():
        rep.violation('module:%s' % m, '%s cannot be imported (%s)' % (m, ', '.join(ex)), m)
    for absent, viol, exits, counts, failed, alls in res:
        name = '+'.join(absent) if len(absent) < 3 else 'all optional packages'
        rep.count('worlds')
        rep.sample('worlds', name or 'nothing absent')
        for k, n in counts.items():
            rep.count(k, n)
        if not absent:
            continue
        for m, ex in sorted(failed.items()):
            if '.'.join(m.split('.')[:2]) not in public and m != 'tslearn':
                rep.count('internal modules that need the package (every importer must guard)')
                continue
            who = [x for x in absent if declares(p, m, x)]
            if not who:
                rep.violation('module:%s:%s' % (m, name), 'without %s, %s cannot be imported (%s) although its documentation '
                              'declares no such dependency' % (name, m, ', '.join(ex)), m)
            elif not set(ex) <= FAMILY | {'*'}:
                rep.violation('module:%s:%s:how' % (m, name), 'without %s, importing %s fails with %s instead of ImportError'
                              % (name, m, ', '.join(sorted(set(ex) - FAMILY - {'*'}))), m)
        for m, n in alls:
            if not any(declares(p, m, x) for x in absent):
                rep.violation('all:%s:%s:%s' % (m, n, name), 'without %s, %s does not define `%s`, which its __all__ advertises'
                              % (name, m, n), m)
        for mode, what, rule, func, key, msg, wh in viol:
            if (mode, rule, func, key, msg) in base_viol or (mode, rule, func, key) in base_viol:
                continue
            if rule == 'import-missing' and any(declares(p, wh.split(' in ')[-1], x) for x in absent):
                continue
            rep.violation('%s:%s:%s' % (rule, func, key), 'without %s, %s: %s' % (name, what, msg), wh)
        for k, ex in sorted(exits.items()):
            gone = (set(ex) & FAMILY) - set(base_exits.get(k, ex))
            if gone and not any(mentions(p, k[1], x) for x in absent):
                rep.violation('needs:%s' % k[1], 'without %s, %s raises %s, and its documentation does not name the package'
                              % (name, k[1], ', '.join(sorted(gone))), k[1])
            new = (set(ex) & NEVER) - set(base_exits.get(k, ex))
            if new:
                rep.violation('exit:%s:%s' % (k[1], ','.join(sorted(new))), 'without %s, %s can raise %s, which it cannot when the package is installed'
                              % (name, k[1], ', '.join(sorted(new))), k[1])
    rep.rule = RULE
    rep.floor('worlds', 6)
    rep.floor('names advertised in __all__', 400)
    rep.floor('entry points executed', 2000)
