"""C12: parallel execution changes nothing but speed.

Three analyses:
  tasks    every public function with n_jobs and every estimator is executed
           abstractly with an unknown n_jobs; every object that exists when a
           joblib task starts, everything handed to it or captured by it is
           marked, and a write to (or a draw from) a marked object inside a task
           is a violation, unless the element written is selected by an argument
           of the task; results must be collected in submission order;
  arms     every function that submits tasks is evaluated symbolically
           (sa/arms.py) for n_jobs None, 1 and another value: the resulting
           terms - work items, their arguments, the fold that combines them -
           must be equal;
  prange   in every function compiled with parallel=True, iterations of prange
           loops must be independent (sa/prange.py)."""
from ..common import *
from ..term import DB
from .. import arms, prange
from .c11 import functions, own as own_nodes

RULE = ('tasks write no object that exists outside them; serial and parallel evaluation give the same terms in the same '
        'order; prange iterations touch disjoint elements')


class H(Hooks):
    def write(self, ip, roots, node, fr, how, v):
        t = [r for r in roots if isinstance(r, tuple) and r and r[0] == 'task']
        if not t:
            return
        i = ip.cur_idx
        if i is not None and how == 'item assignment' and per_task(i):
            return
        ip.emit('taskwrite', node, fr, 'a parallel task writes an object other tasks share (%s)' % how, key='write:' + how)

    def ext_method(self, ip, recv, name, a, node, fr, st):
        if recv.kind == 'rng' and any(isinstance(r, tuple) and r and r[0] == 'task' for r in recv.own):
            ip.emit('taskwrite', node, fr, 'a parallel task draws from a generator other tasks share', key='rng')

    def parallel(self, ip, o, x, node, fr, st):
        if o.a[0].single_const()[1]:
            ip.emit('order', node, fr, 'the results of parallel tasks are collected in completion order', key='unordered')
        ip.emit('site', node, fr, 'tasks submitted', key='site')


def per_task(v):
    if ('taskarg',) in v.lab:
        return True
    for o in v.o:
        if isinstance(o, T) and o.tag == 'tuple' and any(per_task(x) for x in o.a[0]):
            return True
    return False


def tasks(rep):
    ip, cat = make(H())
    ip.mark_tasks = True
    base = user_heap(ip.gheap, lambda p: E)
    ip.clear_events()

    def collect(entry):
        for e in ip.all_events():
            if e.rule in ('taskwrite', 'order'):
                rep.violation('%s:%s:%s' % (e.mod, e.func, e.key), '%s (reached from %s)' % (e.msg, entry), where(ip, e), event_path(ip, e))
            elif e.rule == 'site':
                rep.sample('task submission sites', where(ip, e))
        ip.clear_events()

    for q, e in sorted(cat.funcs.items()):
        if 'n_jobs' not in e.params and not any('n_jobs' in p for p in e.params):
            if not e.params or 'metric_params' not in e.params:
                continue
        kw = {p: param_value(p, ip.default_of(e.func, p), e.opts.get(p), E, E, None, 'numpy', typ=e.types.get(p)) for p in e.params}
        if 'n_jobs' in kw:
            kw['n_jobs'] = V(top=True, kind='int')
        ip.run_function(obj(e.func), [], kw, base)
        rep.count('public functions')
        collect(q)
    for c in cat.estimators():
        L = Life(ip, cat, c)
        cfgs = configs(L)
        for cfg in cfgs:
            hp = with_values(cfg, L)
            r, h, ex = L.construct(base, values=hp)
            ref = main_ref(r) if r is not None else None
            if ref is None:
                ip.clear_events()
                continue
            rep.count('estimator configurations')
            heap = h
            if L.has('fit'):
                heap, _ = fit_exits(L, r, h)
                collect(c.qual + '.fit')
                if heap is None:
                    continue
            for m in L.queries():
                L.run(m, r, heap)
                collect(c.qual + '.' + m)
    rep.count('functions reached', len(ip.stats['functions']))


def has_parallel(fn):
    return any(isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) == 'Parallel' for x in own_nodes(fn, (ast.Name, ast.Attribute)))


def run_arms(rep, prog, db):
    direct = {}
    for mod, t in sorted(prog.trees.items()):
        for q, fn in functions(t):
            if has_parallel(fn):
                direct[fn] = (mod, q)
    todo = [(m, q, f, 0) for f, (m, q) in direct.items()]
    # helpers without an n_jobs test of their own are judged in their callers
    for mod, t in sorted(prog.trees.items()):
        for q, fn in functions(t):
            if fn in direct:
                continue
            for c in own_nodes(fn, ast.Call):
                g = db.resolve(mod, fn, c.func)
                if g is not None and g[0] in direct:
                    todo.append((mod, q, fn, 1))
                    break
    for mod, q, fn, kind in todo:
        res = None
        why = ''
        for depth in (0, 2):
            evs = []
            try:
                for par, ser in ((True, None), (False, None), (False, 1)):
                    ev = arms.Ev(db, mod, fn, par, depth)
                    ev.must = set(direct) if kind else set()
                    evs.append((ev, ev.run(ser)))
            except arms.Give:
                why = 'beyond the term language'
                continue
            p, s0, s1 = evs
            if p[1] == s0[1] == s1[1] and not arms.has(p[1], 'unordered'):
                res = 'equal'
                break
            if p[1] != s0[1] and s0[1] != s1[1]:
                pass
            s = s0 if p[1] != s0[1] else s1
            if p[0].alias or s[0].alias or arms.has(p[1], 'concat') or arms.has(s[1], 'concat') or arms.has(p[1], 'unk') or arms.has(s[1], 'unk'):
                # compare the work items only
                pt = {t for t in p[0].tasks}
                missing = [t for t in pt if t not in s[0].calls and not (t[0] == 'call' and t in p[0].calls and t in s[0].calls)]
                if not missing:
                    res = 'items'
                    break
                res = ('differ', missing[0], ('v', '<no such call>'))
                continue
            a, b = arms.first_diff(p[1], s[1])
            res = ('differ', a, b)
        rep.count('functions that submit tasks' if not kind else 'callers of such functions')
        where_ = '%s:%s' % (prog.paths[mod], fn.lineno)
        if res is None:
            rep.count('arms not decided')
            rep.sample('arms not decided', '%s %s: %s' % (where_, q, why))
        elif res == 'equal':
            rep.count('serial and parallel terms equal')
            rep.sample('arms', '%s %s: same terms for n_jobs=None, 1 and more' % (where_, q))
        elif res == 'items':
            rep.count('serial and parallel work items equal')
            rep.sample('arms', '%s %s: same work items' % (where_, q))
        else:
            rep.violation('%s.%s:arms' % (mod, q), '%s does not compute the same with and without n_jobs: `%s` in parallel, `%s` serially'
                          % (q, arms.show(res[1])[:300], arms.show(res[2])[:300]), where_)


def run_prange(rep, prog, db):
    for mod, t in sorted(prog.trees.items()):
        for q, fn in functions(t):
            if prange.parallel_function(fn):
                rep.count('functions compiled in parallel')
                for line, msg in prange.overlapping_updates(fn):
                    rep.violation('%s.%s:overlap' % (mod, q), '%s is compiled in parallel and %s' % (q, msg), '%s:%s' % (prog.paths[mod], line))
            for n in own_nodes(fn, ast.For):
                it = n.iter
                if not (isinstance(it, ast.Call) and text_name(it.func) == 'prange' and isinstance(n.target, ast.Name)):
                    continue
                if not prange.parallel_function(fn):
                    rep.count('prange loops of functions not compiled in parallel')
                    continue
                rep.count('prange loops')
                lo = prange.Loop(db, mod, fn, n)
                probs = lo.run()
                rep.count('array accesses in prange loops', len(lo.acc))
                rep.sample('prange', '%s:%s %s' % (prog.paths[mod], n.lineno, q))
                for line, msg in probs:
                    rep.violation('%s.%s:prange:%s' % (mod, q, msg.split('(line')[0]), 'iterations of the parallel loop over `%s` in %s interfere: %s'
                                  % (n.target.id, q, msg), '%s:%s' % (prog.paths[mod], line))


def text_name(f):
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''


def run(rep):
    prog = Program(REPO)
    db = DB(prog.trees, prog.ispkg)
    run_prange(rep, prog, db)
    run_arms(rep, prog, db)
    tasks(rep)
    rep.rule = RULE
    rep.floor('prange loops', 5)
    rep.floor('functions that submit tasks', 2)
    rep.floor('estimator configurations', 20)
