"""Races between iterations of numba.prange loops.

In a function compiled with parallel=True, every array element written in a
prange iteration must be one that no other iteration reads or writes: some index
of the written element is an injective expression of the loop variable (i + c,
k * i + c, a block [i*s, i*s + s)) and every other access of that array in the
body uses the same expression in that position (triangular pairs (i, j) / (j, i)
with j bounded by i are disjoint as well).  Scalars are private (assigned before
they are read, not read afterwards) or reductions (only updated by += / *= and
read nowhere else in the body)."""
import ast

from .term import text


def poly(e, env):
    """{monomial: coefficient}; symbols are names after substitution"""
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return {(): e.value} if e.value else {}
    if isinstance(e, ast.Name):
        if e.id in env:
            return env[e.id]
        return {(e.id,): 1}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        p = poly(e.operand, env)
        return None if p is None else {k: -v for k, v in p.items()}
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
        a, b = poly(e.left, env), poly(e.right, env)
        if a is None or b is None:
            return None
        r = {}
        if isinstance(e.op, ast.Mult):
            for m, x in a.items():
                for n, y in b.items():
                    k = tuple(sorted(m + n))
                    r[k] = r.get(k, 0) + x * y
        else:
            s = 1 if isinstance(e.op, ast.Add) else -1
            r = dict(a)
            for n, y in b.items():
                r[n] = r.get(n, 0) + s * y
        return {k: v for k, v in r.items() if v}
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'int' and e.args:
        return poly(e.args[0], env)
    if isinstance(e, (ast.Attribute, ast.Subscript)):
        return {('<%s>' % text(e),): 1}
    return None


class Loop:
    def __init__(self, db, mod, fn, node):
        self.db, self.mod, self.fn, self.node = db, mod, fn, node
        self.var = node.target.id
        self.env = {}
        self.ranges = {}
        self.alias = {}
        self.acc = []           # (root, [dims], write?, line, text)
        self.stored = set()
        self.problems = []

    def is_prange(self, e):
        return isinstance(e, ast.Call) and (isinstance(e.func, ast.Name) and e.func.id == 'prange' or isinstance(e.func, ast.Attribute) and e.func.attr == 'prange')

    def run(self):
        n = self.node
        plain, aug = {}, {}
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    aug.setdefault(x.target.id, []).append(x)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not self.aug_target(x):
                    plain.setdefault(x.id, []).append(x)
        self.plain, self.aug = plain, aug
        self.stored = set(plain) | set(aug)
        # single definitions are substituted
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    k = x.targets[0].id
                    if len(plain.get(k, ())) == 1 and k not in aug:
                        if isinstance(x.value, ast.Subscript) and self.root(x.value) is not None:
                            r, dims = self.access(x.value)
                            if r not in self.stored or r in self.alias:
                                self.alias[k] = x.value
                                continue
                        p = poly(x.value, self.env)
                        if p is not None:
                            self.env[k] = p
                elif isinstance(x, ast.For) and isinstance(x.target, ast.Name) and isinstance(x.iter, ast.Call) and \
                        (isinstance(x.iter.func, ast.Name) and x.iter.func.id in ('range', 'prange') or self.is_prange(x.iter)):
                    a = x.iter.args
                    lo, hi = (ast.Constant(value=0), a[0]) if len(a) == 1 else (a[0], a[1])
                    if len(a) < 3 and len(plain.get(x.target.id, ())) == 1:
                        self.ranges[x.target.id] = (poly(lo, self.env), poly(hi, self.env))
        self.scalars()
        for s in n.body:
            self.collect(s)
        self.arrays()
        return self.problems

    def aug_target(self, x):
        return any(isinstance(y, ast.AugAssign) and y.target is x for s in self.node.body for y in ast.walk(s))

    def root(self, e):
        while isinstance(e, ast.Subscript):
            e = e.value
        return e.id if isinstance(e, ast.Name) else None

    def access(self, e):
        """(root array, index expressions)"""
        dims = []
        parts = []
        x = e
        while isinstance(x, ast.Subscript):
            parts.append(x.slice)
            x = x.value
        for sl in reversed(parts):
            dims += list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
        r = x.id if isinstance(x, ast.Name) else None
        if r in self.alias:
            r2, d2 = self.access(self.alias[r])
            return r2, d2 + dims
        return r, dims

    # -------------------------------------------------------------- scalars
    def scalars(self):
        tail = self.after()
        for k in sorted(self.stored):
            if k in self.alias:
                continue
            if k in self.aug and k not in self.plain:
                if any(not isinstance(x.op, (ast.Add, ast.Sub, ast.Mult, ast.BitAnd, ast.BitOr)) for x in self.aug[k]):
                    self.problems.append((self.aug[k][0].lineno, 'scalar `%s` is carried from one iteration to the next' % k))
                    continue
                if any(isinstance(x, ast.Name) and x.id == k and isinstance(x.ctx, ast.Load) for s in self.node.body for x in ast.walk(s)):
                    self.problems.append((self.aug[k][0].lineno, 'reduction variable `%s` is read inside the parallel loop' % k))
                continue
            ok, line = self.definite(k)
            if not ok:
                self.problems.append((line, '`%s` is read before it is assigned in the iteration: its value comes from another iteration' % k))
            elif k in tail:
                self.problems.append((tail[k], '`%s`, assigned in the parallel loop, is read after it: the iteration that assigned it last is not determined' % k))

    def after(self):
        """names read after the loop before they are assigned again"""
        end = self.node.end_lineno
        r = {}
        stores = {}
        for x in ast.walk(self.fn):
            if isinstance(x, ast.Name) and x.lineno > end:
                if isinstance(x.ctx, ast.Store):
                    stores[x.id] = min(stores.get(x.id, 10 ** 9), x.lineno)
        for x in ast.walk(self.fn):
            if isinstance(x, ast.Name) and x.lineno > end and isinstance(x.ctx, ast.Load) and x.lineno <= stores.get(x.id, 10 ** 9):
                if not (x.id in stores and x.lineno == stores[x.id] and self.loop_target(x.id, x.lineno)):
                    r.setdefault(x.id, x.lineno)
        return r

    def loop_target(self, name, line):
        return any(isinstance(y, ast.For) and y.lineno == line and any(isinstance(z, ast.Name) and z.id == name for z in ast.walk(y.target)) for y in ast.walk(self.fn))

    def definite(self, k):
        """is k assigned before every read in one iteration"""
        bad = []

        def reads(e, d):
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and x.id == k and isinstance(x.ctx, ast.Load) and not d:
                    bad.append(x.lineno)

        def go(stmts, d):
            for s in stmts:
                if isinstance(s, ast.If):
                    reads(s.test, d)
                    a = go(s.body, d)
                    b = go(s.orelse, d)
                    d = a and b
                elif isinstance(s, ast.For):
                    reads(s.iter, d)
                    t = any(isinstance(x, ast.Name) and x.id == k for x in ast.walk(s.target))
                    go(s.body, d or t)
                    d = d
                elif isinstance(s, ast.While):
                    reads(s.test, d)
                    go(s.body, d)
                elif isinstance(s, ast.With):
                    for i in s.items:
                        for kw in getattr(i.context_expr, 'keywords', ()):
                            pass
                    d = go(s.body, d)
                elif isinstance(s, ast.Try):
                    go(s.body, d)
                    for h in s.handlers:
                        go(h.body, d)
                    d = go(s.finalbody, d)
                elif isinstance(s, ast.Assign):
                    reads(s.value, d)
                    for t in s.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and x.id == k and isinstance(x.ctx, ast.Load) and not d:
                                bad.append(x.lineno)
                    if any(isinstance(x, ast.Name) and x.id == k and isinstance(x.ctx, ast.Store) for t in s.targets for x in ast.walk(t)):
                        d = True
                elif isinstance(s, ast.AugAssign):
                    reads(s.value, d)
                    if isinstance(s.target, ast.Name) and s.target.id == k and not d:
                        bad.append(s.lineno)
                    elif not isinstance(s.target, ast.Name):
                        reads(s.target, d)
                else:
                    reads(s, d)
            return d
        go(self.node.body, False)
        return (not bad, bad[0] if bad else 0)

    # -------------------------------------------------------------- arrays
    def collect(self, s):
        for x in ast.walk(s):
            if isinstance(x, ast.Subscript) and not self.inner(s, x):
                r, dims = self.access(x)
                if r is None:
                    continue
                st = not isinstance(x.ctx, ast.Load)
                self.acc.append((r, dims, st, x.lineno, text(x)))
                if self.is_aug(s, x):
                    self.acc.append((r, dims, False, x.lineno, text(x)))
            elif isinstance(x, ast.Call):
                self.call(x)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id in self.alias:
                r, dims = self.access(self.alias[x.target.id])
                self.acc.append((r, dims, True, x.lineno, text(x.target)))
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and not self.part(s, x):
                if x.id in self.alias:
                    r, dims = self.access(self.alias[x.id])
                    self.acc.append((r, dims, False, x.lineno, x.id))
                else:
                    self.acc.append((x.id, [], False, x.lineno, x.id))

    def parents(self, s):
        m = getattr(self, '_pm', None)
        if m is None:
            m = self._pm = {}
        if id(s) not in m:
            d = {}
            for p in ast.walk(s):
                for ch in ast.iter_child_nodes(p):
                    d[id(ch)] = p
            m[id(s)] = d
        return m[id(s)]

    def inner(self, s, x):
        """the subscript is the base of another subscript"""
        p = self.parents(s).get(id(x))
        return isinstance(p, ast.Subscript) and p.value is x or isinstance(p, ast.Attribute) and p.attr in ('shape', 'dtype', 'ndim', 'size')

    def part(self, s, x):
        """the name is only the base of a subscript / an attribute, or a callee"""
        p = self.parents(s).get(id(x))
        return isinstance(p, ast.Subscript) and p.value is x or isinstance(p, ast.Attribute) or isinstance(p, ast.Call) and p.func is x or \
            isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == 'len'

    def is_aug(self, s, x):
        p = self.parents(s).get(id(x))
        return isinstance(p, ast.AugAssign) and p.target is x

    def call(self, c):
        f = c.func
        outs = [k.value for k in c.keywords if k.arg == 'out']
        if isinstance(f, ast.Attribute) and f.attr in ('sort', 'fill', 'put', 'itemset', 'append', 'resize', 'partition'):
            outs.append(f.value)
        g = self.db.resolve(self.mod, self.fn, f)
        if g is not None:
            w = written(self.db, g[1], g[0])
            ps = [a.arg for a in g[0].args.posonlyargs + g[0].args.args]
            for p, a in list(zip(ps, c.args)) + [(k.arg, k.value) for k in c.keywords]:
                if p in w:
                    outs.append(a)
        for o in outs:
            r, dims = self.access(o) if isinstance(o, (ast.Subscript, ast.Name)) else (None, [])
            if r is not None and not (r in self.stored and r not in self.alias):
                self.acc.append((r, dims, True, c.lineno, text(o)))

    def arrays(self):
        by = {}
        for a in self.acc:
            by.setdefault(a[0], []).append(a)
        for r, accs in sorted(by.items()):
            if r in self.stored and r not in self.alias:
                continue        # private to the iteration
            ws = [a for a in accs if a[2]]
            for w in ws:
                for o in accs:
                    if not self.apart(w[1], o[1]):
                        self.problems.append((w[3], '`%s` written in one iteration may be the `%s` another iteration %s (line %s)'
                                              % (w[4], o[4], 'writes' if o[2] else 'reads', o[3])))
                        break
                else:
                    continue
                break

    def kind(self, d):
        """('pt', poly) | ('blk', lo, hi) | None"""
        if isinstance(d, ast.Slice):
            if d.step is not None or d.lower is None or d.upper is None:
                return None
            lo, hi = poly(d.lower, self.env), poly(d.upper, self.env)
            return None if lo is None or hi is None else ('blk', lo, hi)
        p = poly(d, self.env)
        if p is None:
            return None
        inner = [k for k in p if any(s in self.ranges for s in k)]
        if len(inner) == 1 and len(inner[0]) == 1 and p[inner[0]] == 1:
            v = inner[0][0]
            lo, hi = self.ranges[v]
            if lo is not None and hi is not None:
                rest = {k: x for k, x in p.items() if k != inner[0]}
                return ('blk', add(lo, rest), add(hi, rest))
        return ('pt', p)

    def private(self, m):
        return any((s in self.stored and s != self.var) for s in m)

    def stride(self, p):
        """(multiplier monomial, coefficient, rest) of the loop variable in p"""
        with_v = [m for m in p if self.var in m]
        if len(with_v) != 1:
            return None
        m = list(with_v[0])
        m.remove(self.var)
        if self.var in m:
            return None
        rest = {k: v for k, v in p.items() if k != with_v[0]}
        if any(self.private(k) for k in rest) or self.private(tuple(m)):
            return None
        return tuple(m), p[with_v[0]], rest

    def block(self, d):
        """(step polynomial, offset) of an index confined to a block of the loop variable"""
        k = self.kind(d)
        if k is None:
            return None
        if k[0] == 'pt':
            s = self.stride(k[1])
            return None if s is None else ('pt', s[0], s[1], frozenset(s[2].items()))
        s = self.stride(k[1])
        if s is None or s[1] <= 0:
            return None
        width = add(k[2], {m: -v for m, v in k[1].items()})
        step = {s[0]: s[1]}
        left = add(width, {m: -v for m, v in step.items()})
        if all(m == () for m in left) and left.get((), 0) <= 0:
            return ('blk', s[0], s[1], frozenset(s[2].items()))
        return None

    def apart(self, a, b):
        for x, y in zip(a, b):
            p, q = self.block(x), self.block(y)
            if p is not None and q is not None and p[1:] == q[1:]:
                return True
        # (i, j) against (j, i) with j on one side of i
        for k in range(min(len(a), len(b)) - 1):
            a1, a2, b1, b2 = [text(z) for z in (a[k], a[k + 1], b[k], b[k + 1])]
            if (a1, a2) == (b2, b1) and self.var in (a1, a2):
                j = a2 if a1 == self.var else a1
                r = self.ranges.get(j)
                if r is not None and r[0] is not None and r[1] is not None:
                    i = {(self.var,): 1}
                    up = add(r[1], {(self.var,): -1})
                    lo = add(r[0], {(self.var,): -1})
                    if all(m == () for m in up) and up.get((), 0) <= 1 or all(m == () for m in lo) and lo.get((), 0) >= 0:
                        return True
        return False


def add(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v}


_w = {}


def written(db, mod, fn, depth=0):
    """parameters whose elements the function writes"""
    if fn in _w or depth > 4:
        return _w.get(fn, set())
    _w[fn] = set()
    ps = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    out = set()
    alias = {}
    rebound = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, (ast.Subscript, ast.Name)):
            y = x.value
            while isinstance(y, ast.Subscript):
                y = y.value
            if isinstance(y, ast.Name):
                alias[x.targets[0].id] = y.id

    def root(e):
        while isinstance(e, (ast.Subscript, ast.Attribute)):
            e = e.value
        n = e.id if isinstance(e, ast.Name) else None
        k = 0
        while n in alias and n not in ps and k < 5:
            n = alias[n]
            k += 1
        return n
    for x in ast.walk(fn):
        if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load):
            out.add(root(x))
        elif isinstance(x, ast.Call):
            for k in x.keywords:
                if k.arg == 'out':
                    out.add(root(k.value))
            g = db.resolve(mod, fn, x.func)
            if g is not None and g[0] is not fn:
                w = written(db, g[1], g[0], depth + 1)
                gp = [a.arg for a in g[0].args.posonlyargs + g[0].args.args]
                for p, a in list(zip(gp, x.args)) + [(k.arg, k.value) for k in x.keywords]:
                    if p in w:
                        out.add(root(a))
    _w[fn] = out & ps
    return _w[fn]


def parallel_function(fn):
    for d in fn.decorator_list:
        if isinstance(d, ast.Call):
            for k in d.keywords:
                if k.arg == 'parallel' and not (isinstance(k.value, ast.Constant) and not k.value.value):
                    return True
    return False


ELEMENTWISE = {'exp', 'log', 'sqrt', 'abs', 'absolute', 'maximum', 'minimum', 'add', 'subtract', 'multiply', 'divide', 'square',
               'where', 'power', 'negative', 'fmax', 'fmin', 'sign', 'tanh', 'sin', 'cos', 'astype'}


def overlapping_updates(fn):
    """statements that update an array in place from a differently arranged view
    of itself: compiled in parallel, the elements are updated in no given order,
    while others are still to be read"""
    alias = {}
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            r = arrangement(s.value)
            n = s.targets[0].id
            alias[n] = r if r is not None and r[1] and n not in alias else None
    out = []
    for s in ast.walk(fn):
        if isinstance(s, ast.AugAssign):
            t = s.target
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript):
            t = s.targets[0]
            if not any(isinstance(x, ast.Slice) or isinstance(x, ast.Constant) and x.value is Ellipsis for x in ast.walk(t.slice)):
                continue
        else:
            continue
        a = arrangement(t)
        if a is None:
            continue
        for r in operands(s.value):
            b = arrangement(r)
            if b is None:
                continue
            if not b[1] and alias.get(b[0]):
                b = alias[b[0]]
            if a[0] == b[0] and full(a[1]) != full(b[1]) and (views(a[1]) or isinstance(t, ast.Name)) and views(b[1]):
                out.append((s.lineno, '`%s` is updated element by element from `%s`, a view of the same array arranged differently' % (text(t), text(r))))
    return out


def full(ar):
    return tuple(x for x in ar if x not in ('[:]', '[...]', '[:, :]', '[:, :, :]'))


def views(ar):
    return all(x != 'pt' for x in ar)


def arrangement(e):
    """(array name, chain of view operations)"""
    ops = []
    while True:
        if isinstance(e, ast.Name):
            return e.id, tuple(reversed(ops))
        if isinstance(e, ast.Attribute) and e.attr == 'T':
            ops.append('.T')
            e = e.value
        elif isinstance(e, ast.Subscript):
            sl = any(isinstance(x, ast.Slice) or isinstance(x, ast.Constant) and x.value is Ellipsis for x in ast.walk(e.slice))
            ops.append('[%s]' % text(e.slice) if sl else 'pt')
            e = e.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('transpose', 'swapaxes') :
            ops.append('.%s' % e.func.attr)
            if isinstance(e.func.value, ast.Name) and e.func.value.id in ('np', 'numpy'):
                if not e.args:
                    return None
                e = e.args[0]
            else:
                e = e.func.value
        else:
            return None


def operands(e):
    """sub-expressions an element-wise expression reads element by element"""
    if isinstance(e, ast.BinOp) and not isinstance(e.op, ast.MatMult):
        return operands(e.left) + operands(e.right)
    if isinstance(e, ast.UnaryOp):
        return operands(e.operand)
    if isinstance(e, ast.Call):
        n = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ''
        if n in ELEMENTWISE:
            return [y for x in e.args for y in operands(x)]
    return [e]
