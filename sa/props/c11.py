"""C11: every loop that is not over a finite collection terminates.

Every `while` loop of the package, every `for` over an unbounded iterator
(itertools.count / cycle / repeat, iter(callable, sentinel), an infinite
generator), every `for` over a list its body grows, and every self-recursive call
is analysed (sa/term.py): each path through one iteration that returns to the
loop head must move a quantity that the loop condition, a guard on the path or
an inductive invariant bounds, no path may move it back, and recursion must not
repeat its own arguments.  Loops over range(), arrays and collections are finite
by construction and only counted."""
from ..common import *
from ..term import Loop, DB, Cap, text

RULE = ('every path through one iteration back to the loop head strictly moves a bounded quantity, none moves it back; a '
        'recursive call does not repeat its own arguments')


def functions(tree):
    """(qualified name, def node) of every function, nested ones included"""
    out = []

    def go(n, q):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append(('.'.join(q + [x.name]), x))
                go(x, q + [x.name])
            elif isinstance(x, ast.ClassDef):
                go(x, q + [x.name])
            else:
                go(x, q)
    go(tree, [])
    return out


def own(node, kinds):
    """nodes of the given kinds in a function, not in the functions nested in it"""
    st = list(ast.iter_child_nodes(node))
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(x, kinds):
            yield x
        st.extend(ast.iter_child_nodes(x))


def infinite_iter(db, mod, fn, e):
    """None, or the step of the counter an unbounded iterator yields (0: none)"""
    if not isinstance(e, ast.Call):
        return None
    f = e.func
    n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
    src = db.imports.get(mod, {}).get(f.id, (None,))[0] if isinstance(f, ast.Name) else None
    it = src == 'itertools' or isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and \
        db.imports.get(mod, {}).get(f.value.id, (None,))[0] == 'itertools'
    if it and n == 'count':
        st = e.args[1] if len(e.args) > 1 else None
        if st is None:
            return 1
        return st.value if isinstance(st, ast.Constant) and isinstance(st.value, int) else 0
    if it and n == 'cycle' or it and n == 'repeat' and len(e.args) + len(e.keywords) < 2:
        return 0
    if n == 'iter' and len(e.args) == 2:
        return 0
    if n in ('enumerate', 'map', 'filter') and e.args and infinite_iter(db, mod, fn, e.args[0 if n == 'enumerate' else -1]) is not None:
        return 1 if n == 'enumerate' else 0
    g = db.resolve(mod, fn, f)
    if g is not None:
        for w in own(g[0], ast.While):
            if isinstance(w.test, ast.Constant) and w.test.value and any(True for _ in own(w, (ast.Yield, ast.YieldFrom))):
                if not any(True for _ in own(w, (ast.Break, ast.Return))):
                    return 0
    return None


def say(path):
    return ' -> '.join('line %s: %s' % x for x in path[-6:]) or 'straight through the body'


def run(rep):
    prog = Program(REPO)
    db = DB(prog.trees, prog.ispkg)
    for mod, tree in sorted(prog.trees.items()):
        pth = prog.paths[mod]
        fns = functions(tree)
        scopes = [(q, f) for q, f in fns] + [('<module>', tree)]
        for q, fn in scopes:
            rep.count('functions')
            loops = sorted(own(fn, (ast.While, ast.For, ast.AsyncFor)), key=lambda x: x.lineno)
            for n in loops:
                step = None
                need = None
                if isinstance(n, (ast.For, ast.AsyncFor)):
                    inf = infinite_iter(db, mod, fn, n.iter)
                    if inf is None:
                        grow(rep, db, mod, fn, q, pth, n)
                        continue
                    t = n.target
                    if isinstance(t, ast.Tuple) and isinstance(n.iter, ast.Call) and text(n.iter.func) == 'enumerate':
                        t = t.elts[0]
                    if isinstance(t, ast.Name) and inf:
                        step = (t.id, inf)
                rep.count('condition-controlled loops')
                cond = text(n.test) if isinstance(n, ast.While) else 'for %s in %s' % (text(n.target), text(n.iter))
                lo = Loop(db, mod, fn, n)
                if step:
                    lo.head_target = step[0]
                try:
                    p = lo.analyse(step)
                except Cap:
                    rep.count('loops not decided (too many paths)')
                    rep.sample('undecided', '%s:%s' % (pth, n.lineno))
                    continue
                if p is None:
                    rep.count('loops shown to terminate')
                    rep.count('paths', getattr(lo, 'npaths', 0))
                    rep.sample('loops', '%s:%s %s `%s` measure {%s}' % (pth, n.lineno, q, cond[:60], ', '.join(sorted(getattr(lo, 'measure', ())))))
                else:
                    rep.violation('%s.%s:%s' % (mod, q, cond[:60]),
                                  'loop `%s` in %s can go round without moving anything that bounds it (%s)' % (cond[:80], q, say(p.lines)),
                                  '%s:%s' % (pth, n.lineno), [(pth, l, w) for l, w in p.lines])
            # comprehensions over unbounded iterators
            for c in own(fn, ast.comprehension):
                if infinite_iter(db, mod, fn, c.iter) is not None:
                    rep.violation('%s.%s:comp:%s' % (mod, q, text(c.iter)[:50]), 'comprehension over the unbounded iterator `%s` in %s' % (text(c.iter), q),
                                  '%s:%s' % (pth, c.iter.lineno))
            if fn is not tree:
                recursion(rep, db, mod, fn, q, pth)
    rep.floor('condition-controlled loops', 10)
    rep.floor('functions', 300)


def grow(rep, db, mod, fn, q, pth, n):
    """for x in L: ... L.append(..)"""
    rep.count('for loops over collections')
    lo = Loop(db, mod, fn, n)
    k = lo.keyof(n.iter)
    if k is None:
        return
    if not any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ('append', 'extend', 'insert') and lo.keyof(y.func.value) == k
               or isinstance(y, ast.AugAssign) and lo.keyof(y.target) == k for y in ast.walk(n)):
        return
    rep.count('for loops that change their collection')
    try:
        lo.collect_seen()
        lo.seen_keys.add('len(%s)' % k)
        lo.assigned_keys = {'len(%s)' % k}
        lo.changing = {'len(%s)' % k}
        ps, _ = lo.paths()
        lo.all_paths, lo.step = ps, None
    except Cap:
        return
    for p in ps:
        d = lo.delta(p, 'len(%s)' % k)
        if isinstance(n.iter, ast.Name) and n.iter.id in p.env and p.env[n.iter.id][0] == 'op':
            continue
        if (d is None or d[0] == 'ge' or d[1] > 0) and not lo.bounded(p, 'len(%s)' % k, True):
            # another counter with a bound also stops the growth
            if any(lo.bounded(p, kk, True) and lo.delta(p, kk) not in (None, ('eq', 0)) for kk in p.env):
                continue
            rep.violation('%s.%s:grow:%s' % (mod, q, k), 'the loop over `%s` in %s appends to it on every pass (%s)' % (k, q, say(p.lines)),
                          '%s:%s' % (pth, n.lineno), [(pth, l, w) for l, w in p.lines])
            return


def recursion(rep, db, mod, fn, q, pth):
    a = fn.args
    params = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]
    for c in own(fn, ast.Call):
        g = db.resolve(mod, fn, c.func)
        if g is None or g[0] is not fn:
            continue
        rep.count('self-recursive calls')
        ps = [x.arg for x in a.posonlyargs + a.args]
        if g[2] and ps and ps[0] in ('self', 'cls'):
            ps = ps[1:]
        changed = bool(a.vararg or a.kwarg) or any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords)
        stored = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        selfwrites = any(isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(fn))
        given = set()
        for p, x in list(zip(ps, c.args)) + [(k.arg, k.value) for k in c.keywords]:
            given.add(p)
            if not (isinstance(x, ast.Name) and x.id == p and p not in stored):
                changed = True
        if not changed and not selfwrites and given >= set(ps[:len(ps) - len(a.defaults)] if a.defaults else ps):
            # parameters left at their default while the caller's may differ are a change
            if given >= {p for p in params if p not in ('self', 'cls')}:
                rep.violation('%s.%s:recursion' % (mod, q), '%s calls itself with exactly its own arguments' % q, '%s:%s' % (pth, c.lineno))
