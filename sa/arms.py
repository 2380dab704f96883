"""Terms computed by a function under a given value of n_jobs.

A function is evaluated symbolically into one term per returned / mutated thing:
loops become folds over symbolic index ranges (a list built by append is the
comprehension it spells), joblib's Parallel(...)(delayed(f)(x) for ...) is the
list of the calls f(x), comprehensions that are iterated over are fused with the
loop that does.  The serial and the parallel evaluation of the same function must
give the same terms: same work items, same arguments, same order of
combination."""
import ast

UNK = ('unk',)
NJ = ('njobs',)
LIMIT = 40000


class Give(Exception):
    """beyond what the evaluator covers"""


def c(x):
    return ('c', type(x).__name__, x)


def has(t, tag):
    if isinstance(t, tuple):
        if t and t[0] == tag:
            return True
        return any(has(x, tag) for x in t if isinstance(x, tuple))
    return False


class Ev:
    def __init__(self, db, mod, fn, parallel, inline=0):
        self.db, self.mod, self.fn, self.par = db, mod, fn, parallel
        self.inline_depth = inline
        self.n = 0
        self.steps = 0
        self.saw_parallel = False
        self.calls = set()
        self.tasks = []
        self.alias = False
        self.depth = 0
        self.must = set()

    def fresh(self):
        self.n += 1
        return ('b', self.n)

    # ------------------------------------------------------------ expressions
    def truth(self, e, env):
        """True / False / None for a test that only depends on n_jobs"""
        t = self.ev(e, env)
        return self.truth_t(t)

    def truth_t(self, t):
        if t[0] == 'c':
            return bool(t[2])
        if t == NJ:
            return self.par
        if t[0] == 'not':
            r = self.truth_t(t[1])
            return None if r is None else not r
        if t[0] in ('and', 'or'):
            rs = [self.truth_t(x) for x in t[1]]
            if t[0] == 'and':
                return False if False in rs else None if None in rs else True
            return True if True in rs else None if None in rs else False
        if t[0] == 'cmp':
            op, a, b = t[1:]
            if b == NJ and a[0] == 'c':
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if a == NJ:
                if b[0] == 'c':
                    v = b[2]
                    if self.par:
                        if v is None:
                            return op in ('is not', '!=')
                        if isinstance(v, int):
                            return {'==': None if v > 1 or v < 0 else False, '!=': None if v > 1 or v < 0 else True, 'is': False, 'is not': True,
                                    '>': True if v <= 1 else None, '>=': True if v <= 1 else None,
                                    '<': False if v <= 1 else None, '<=': False if v <= 1 else None}.get(op)
                    else:
                        # both None and 1 are serial: a test that separates them is not one of these
                        if v is None:
                            return op in ('is', '==') if self.serial is None else op in ('is not', '!=')
                        if isinstance(v, int):
                            if self.serial is None:
                                return op in ('!=', 'is not') if op in ('==', '!=', 'is', 'is not') else None
                            s = 1
                            return {'==': s == v, '!=': s != v, 'is': s == v, 'is not': s != v, '>': s > v, '>=': s >= v, '<': s < v, '<=': s <= v}.get(op)
                if b[0] in ('list', 'tuple', 'set') and all(x[0] == 'c' for x in b[1]) and op in ('in', 'not in'):
                    vals = [x[2] for x in b[1]]
                    inn = (None in vals and 1 in vals) if not self.par else False
                    if not self.par:
                        inn = self.serial in vals
                    return inn == (op == 'in')
            if a[0] == 'c' and b[0] == 'c':
                x, y = a[2], b[2]
                try:
                    return {'==': lambda: x == y, '!=': lambda: x != y, 'is': lambda: x is y or x == y and type(x) is type(y),
                            'is not': lambda: not (x is y or x == y and type(x) is type(y)), '<': lambda: x < y, '>': lambda: x > y,
                            '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()
                except Exception:
                    return None
        return None

    def key(self, e):
        if isinstance(e, ast.Name):
            return e.id
        return None

    def ev(self, e, env):
        self.steps += 1
        if self.steps > LIMIT:
            raise Give()
        if isinstance(e, ast.Constant):
            return c(e.value)
        if isinstance(e, ast.Name):
            return env.get(e.id, ('v', e.id))
        if isinstance(e, ast.Attribute):
            if e.attr == 'n_jobs':
                return NJ
            b = self.ev(e.value, env)
            return ('attr', b, e.attr)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            k = {ast.Tuple: 'tuple', ast.List: 'list', ast.Set: 'set'}[type(e)]
            return (k, tuple(self.ev(x, env) for x in e.elts))
        if isinstance(e, ast.Starred):
            return ('star', self.ev(e.value, env))
        if isinstance(e, ast.Dict):
            return ('dict', tuple(((self.ev(k, env) if k is not None else ('**',)), self.ev(v, env)) for k, v in zip(e.keys, e.values)))
        if isinstance(e, ast.BinOp):
            return self.bin(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))
        if isinstance(e, ast.UnaryOp):
            a = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                t = self.truth_t(('not', a))
                return c(t) if t is not None else ('not', a)
            if isinstance(e.op, ast.USub) and a[0] == 'c' and isinstance(a[2], (int, float)):
                return c(-a[2])
            return ('un', type(e.op).__name__, a)
        if isinstance(e, ast.BoolOp):
            vs = [self.ev(x, env) for x in e.values]
            k = 'and' if isinstance(e.op, ast.And) else 'or'
            out = []
            for i, v in enumerate(vs):
                t = self.truth_t(v)
                last = i == len(vs) - 1
                if t is None or last:
                    out.append(v)
                elif (t is False) == (k == 'and'):
                    out.append(v)
                    break
            t = self.truth_t((k, tuple(vs)))
            if t is not None and all(v[0] in ('cmp', 'not', 'and', 'or', 'c') or v == NJ for v in vs):
                return c(t)
            return out[0] if len(out) == 1 else (k, tuple(out))
        if isinstance(e, ast.Compare):
            left = self.ev(e.left, env)
            parts = []
            for o, r in zip(e.ops, e.comparators):
                rv = self.ev(r, env)
                on = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
                      ast.In: 'in', ast.NotIn: 'not in'}[type(o)]
                p = ('cmp', on, left, rv)
                t = self.truth_t(p)
                parts.append(c(t) if t is not None else p)
                left = rv
            return parts[0] if len(parts) == 1 else ('and', tuple(parts))
        if isinstance(e, ast.IfExp):
            t = self.truth(e.test, env)
            if t is not None:
                return self.ev(e.body if t else e.orelse, env)
            return ('ite', self.ev(e.test, env), self.ev(e.body, env), self.ev(e.orelse, env))
        if isinstance(e, ast.Subscript):
            return self.sub(self.ev(e.value, env), self.ev(e.slice, env))
        if isinstance(e, ast.Slice):
            return ('slice',) + tuple(self.ev(x, env) if x is not None else c(None) for x in (e.lower, e.upper, e.step))
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            env2 = dict(env)
            it = self.literal(self.ev(e.generators[0].iter, env))
            if it is not None and not e.generators[0].ifs:
                parts = []
                for x in it:
                    env2 = dict(env)
                    self.bind(e.generators[0].target, x, env2)
                    if len(e.generators) > 1:
                        r = ast.ListComp(elt=e.elt, generators=e.generators[1:])
                        parts.append(self.ev(r, env2))
                    else:
                        parts.append(('list', (self.ev(e.elt, env2),)))
                return ('concat', tuple(parts))
            env2 = dict(env)
            binders = []
            for g in e.generators:
                bs, v = self.over(self.ev(g.iter, env2))
                binders += bs
                self.bind(g.target, v, env2)
                for i in g.ifs:
                    binders.append(('if', self.ev(i, env2)))
            return ('comp', tuple(binders), self.ev(e.elt, env2))
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Lambda):
            return ('lambda', ast.unparse(e))
        if isinstance(e, ast.JoinedStr):
            return ('str',)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.bind(e.target, v, env)
            return v
        raise Give()

    def bin(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[2], (int, float)) and isinstance(b[2], (int, float)) and op in ('Add', 'Sub', 'Mult'):
            return c({'Add': a[2] + b[2], 'Sub': a[2] - b[2], 'Mult': a[2] * b[2]}[op])
        if op == 'Add' and {a[0], b[0]} & {'comp', 'concat', 'list'} and a[0] in ('comp', 'concat', 'list') and b[0] in ('comp', 'concat', 'list'):
            return ('concat', (a[1] if a[0] == 'concat' else (a,)) + (b[1] if b[0] == 'concat' else (b,)))
        if op in ('Add', 'Mult'):
            if repr(a) > repr(b) and a[0] not in ('list', 'comp', 'acc') and b[0] not in ('list', 'comp', 'acc'):
                a, b = b, a
            elif b[0] == 'acc':
                a, b = b, a
        if op == 'Pow' and b == c(2):
            return ('op', 'Pow', a, b)
        if op == 'Mult' and a == b:
            return ('op', 'Pow', a, c(2))
        return ('op', op, a, b)

    def sub(self, a, i):
        if a[0] in ('tuple', 'list') and i[0] == 'c' and isinstance(i[2], int) and -len(a[1]) <= i[2] < len(a[1]):
            return a[1][i[2]]
        if a[0] == 'attr' and a[2] == 'shape' and i == c(0):
            return ('len', a[1])
        if a[0] == 'comp' and len(a[1]) == 1 and a[1][0][0] == 'for' and a[1][0][2][0] == 'range' and a[1][0][2][1] == c(0):
            # element i of a mapped range
            return subst(a[2], a[1][0][1], i)
        return ('sub', a, i)

    def over(self, t):
        """(binders, element term) of iterating over t"""
        if t[0] == 'comp':
            # fused: the same binders, fresh variables
            m = {}
            bs = []
            for b in t[1]:
                if b[0] == 'for':
                    v = self.fresh()
                    bs.append(('for', v, substm(b[2], m)))
                    m[b[1]] = v
                else:
                    bs.append(('if', substm(b[1], m)))
            return bs, substm(t[2], m)
        if t[0] == 'range':
            v = self.fresh()
            return [('for', v, t)], v
        if t[0] == 'enum':
            if t[1][0] == 'comp' and len(t[1][1]) == 1 and t[1][1][0][0] == 'for' and t[1][1][0][2][0] == 'range' and t[1][1][0][2][1] == c(0):
                bs, e = self.over(t[1])
                return bs, ('tuple', (bs[0][1], e))
            if t[1][0] == 'comp':
                bs, e = self.over(t[1])
                return bs, ('tuple', (('pos', tuple(bs)), e))
            bs, e = self.over(t[1])
            return bs, ('tuple', (bs[0][1], e))
        if t[0] == 'zip':
            parts = [self.over(x) for x in t[1]]
            b0 = parts[0][0]
            if len(b0) != 1 or b0[0][0] != 'for':
                raise Give()
            v = b0[0][1]
            es = [parts[0][1]]
            for x, (bs, e) in zip(t[1][1:], parts[1:]):
                if len(bs) != 1 or bs[0][0] != 'for' or bs[0][2][1] != b0[0][2][1]:
                    raise Give()
                es.append(subst(e, bs[0][1], v))
            return b0, ('tuple', tuple(es))
        if t[0] in ('tuple', 'list') and not has(t, 'star'):
            raise Give()
        v = self.fresh()
        return [('for', v, ('range', c(0), ('len', t), c(1)))], self.sub(t, v)

    def literal(self, t):
        """the elements of a literal sequence"""
        if t[0] in ('tuple', 'list') and not any(x[0] == 'star' for x in t[1]):
            return list(t[1])
        if t[0] == 'zip':
            ls = [self.literal(x) for x in t[1]]
            if ls and all(x is not None for x in ls):
                return [('tuple', x) for x in zip(*ls)]
        if t[0] == 'enum':
            x = self.literal(t[1])
            if x is not None:
                return [('tuple', (c(i), y)) for i, y in enumerate(x)]
        return None

    def call(self, e, env):
        f = e.func
        # Parallel(...)(gen)
        if isinstance(f, ast.Call) or isinstance(f, ast.Name) and env.get(f.id, UNK)[0] == 'parallel':
            ft = self.ev(f, env)
            if ft[0] == 'parallel':
                self.saw_parallel = True
                t = self.ev(e.args[0], env)
                self.tasks += self.elems(t)
                if ft[1]:
                    return ('unordered', t)
                return t
            if ft[0] == 'delayed':
                return self.apply(ft[1], e, env)
            return self.apply(ft, e, env)
        name = f.id if isinstance(f, ast.Name) else None
        origin = self.db.imports.get(self.mod, {}).get(name, (None, None)) if name else (None, None)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            o = self.db.imports.get(self.mod, {}).get(f.value.id)
            if o and o[0] == 'joblib' and o[1] is None:
                origin = ('joblib', f.attr)
        if origin[0] and origin[0].split('.')[0] == 'joblib':
            if origin[1] == 'Parallel':
                ra = [k.value for k in e.keywords if k.arg == 'return_as']
                un = bool(ra) and not (isinstance(ra[0], ast.Constant) and ra[0].value in ('list', 'generator'))
                return ('parallel', un)
            if origin[1] == 'delayed':
                return ('delayed', self.ev(e.args[0], env))
            if origin[1] == 'effective_n_jobs':
                return NJ
        args = e.args
        if name in env:
            return self.apply(env[name], e, env)
        if name == 'len' and len(args) == 1:
            t = self.ev(args[0], env)
            if t[0] == 'comp' and len(t[1]) == 1 and t[1][0][0] == 'for' and t[1][0][2][0] == 'range' and t[1][0][2][1] == c(0):
                return t[1][0][2][2]
            return ('len', t)
        if name == 'range':
            a = [self.ev(x, env) for x in args]
            if len(a) == 1:
                a = [c(0), a[0], c(1)]
            elif len(a) == 2:
                a = a + [c(1)]
            return ('range',) + tuple(a)
        if name == 'enumerate' and len(args) == 1 and not e.keywords:
            return ('enum', self.ev(args[0], env))
        if name == 'zip':
            return ('zip', tuple(self.ev(x, env) for x in args))
        if name in ('list', 'tuple', 'iter') and len(args) == 1:
            t = self.ev(args[0], env)
            if t[0] in ('comp', 'list'):
                return t
            if t[0] in ('range', 'enum', 'zip', 'sub', 'v'):
                bs, el = self.over(t)
                return ('comp', tuple(bs), el)
        if name == 'list' and not args:
            return ('list', ())
        if name == 'dict' and not args and not e.keywords:
            return ('dict', ())
        if name == 'sum' and args:
            t = self.ev(args[0], env)
            if t[0] == 'comp':
                return ('fold', t[1], ('op', 'Add', ('acc', 0), t[2]) if True else None, self.ev(args[1], env) if len(args) > 1 else c(0))
        if isinstance(f, ast.Attribute):
            # mutating methods are handled as statements
            b = self.ev(f.value, env)
            return self.fin(('method', b, f.attr), e, env)
        ft = self.ev(f, env)
        return self.apply(ft, e, env)

    def apply(self, ft, e, env):
        if ft[0] == 'closure':
            return self.inline(ft[1], ft[2], e, env)
        if ft[0] == 'delayed':
            return self.apply(ft[1], e, env)
        if ft[0] == 'v':
            g = self.db.resolve(self.mod, self.fn, ast.Name(id=ft[1], ctx=ast.Load()))
            if g is not None and (g[0] in self.must or self.inline_depth > self.depth):
                r = self.inline(g[0], None, e, env, g[1])
                if r is not None:
                    return r
        return self.fin(ft, e, env)

    def fin(self, ft, e, env):
        args = tuple(self.ev(a, env) for a in e.args)
        kw = tuple(sorted(((k.arg or '**'), self.ev(k.value, env)) for k in e.keywords if k.arg not in ('n_jobs', 'verbose')))
        # keyword and positional spellings of a package function's arguments agree
        if ft[0] == 'v':
            g = self.db.resolve(self.mod, self.fn, ast.Name(id=ft[1], ctx=ast.Load()))
            if g is not None and not any(a[0] == 'star' for a in args):
                ps = [a.arg for a in g[0].args.posonlyargs + g[0].args.args]
                if len(args) <= len(ps):
                    kw = tuple(sorted(kw + tuple((p, a) for p, a in zip(ps, args) if p not in ('n_jobs', 'verbose'))))
                    args = ()
        r = ('call', ft, args, kw)
        self.calls.add(canon(r))
        return r

    def elems(self, t):
        if t[0] == 'comp':
            return [canon(t[2])]
        if t[0] == 'concat':
            return [y for x in t[1] for y in self.elems(x)]
        if t[0] == 'list':
            return [canon(x) for x in t[1]]
        return []

    def inline(self, fn, cenv, e, env, mod=None):
        if self.depth > 3 or fn.args.vararg or fn.args.kwarg or any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            return None if cenv is None else self.fin(('v', fn.name), e, env)
        ps = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        env2 = dict(cenv) if cenv is not None else {}
        bound = {}
        for p, a in zip(ps, e.args):
            bound[p] = self.ev(a, env)
        for k in e.keywords:
            bound[k.arg] = self.ev(k.value, env)
        for p, d in zip(reversed(ps), reversed(fn.args.defaults)):
            bound.setdefault(p, self.ev(d, {}))
        for p, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults):
            if d is not None:
                bound.setdefault(p.arg, self.ev(d, {}))
        if any(p not in bound for p in ps):
            return None if cenv is None else self.fin(('v', fn.name), e, env)
        env2.update(bound)
        if 'n_jobs' in bound and bound['n_jobs'] != NJ and bound['n_jobs'][0] != 'c':
            env2['n_jobs'] = NJ
        om, of = self.mod, self.fn
        if mod is not None:
            self.mod, self.fn = mod, fn
        self.depth += 1
        try:
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
                raise Give()
            r = self.block(fn.body, env2)
        finally:
            self.depth -= 1
            self.mod, self.fn = om, of
        return r if r is not None else c(None)

    # ------------------------------------------------------------ statements
    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    raise Give()
                self.bind(x, self.sub(v, c(i)), env)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            self.update(t, ('set', v), env)
        else:
            raise Give()

    def update(self, t, what, env):
        """functional update of the root variable of an lvalue path"""
        path = []
        x = t
        while isinstance(x, (ast.Subscript, ast.Attribute)):
            path.append(self.ev(x.slice, env) if isinstance(x, ast.Subscript) else ('.', x.attr))
            x = x.value
        if not isinstance(x, ast.Name):
            raise Give()
        old = env.get(x.id, ('v', x.id))
        if old[0] == 'call' and sum(1 for v in env.values() if v == old) > 1:
            self.alias = True
        env[x.id] = ('upd', old, tuple(reversed(path)), what)
        self.muts.add(x.id)

    def block(self, stmts, env):
        """the returned term or None when it falls through (env updated in place)"""
        for i, s in enumerate(stmts):
            self.steps += 1
            if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
                continue
            if isinstance(s, ast.Expr):
                v = s.value
                if isinstance(v, ast.Constant):
                    continue
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('append', 'extend', 'add', 'update', 'insert', 'sort', 'fill'):
                    a = tuple(self.ev(x, env) for x in v.args)
                    if isinstance(v.func.value, ast.Name) and v.func.attr == 'append':
                        n = v.func.value.id
                        old = env.get(n, ('v', n))
                        if old[0] == 'list':
                            env[n] = ('list', old[1] + a)
                        else:
                            env[n] = ('app', old, a[0])
                        continue
                    self.update(v.func.value, (v.func.attr,) + a, env)
                    continue
                t = self.ev(v, env)
                if t[0] == 'call' and t[1] == ('v', 'print'):
                    continue
                if t[0] == 'call' and t[1][0] == 'method' and t[1][1] == ('v', 'warnings'):
                    continue
                env['!effects'] = ('seq', env.get('!effects', c(0)), t)
                continue
            if isinstance(s, ast.Assign):
                v = self.ev(s.value, env)
                for t in s.targets:
                    self.bind(t, v, env)
                continue
            if isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    self.bind(s.target, self.ev(s.value, env), env)
                continue
            if isinstance(s, ast.AugAssign):
                v = self.ev(s.value, env)
                if isinstance(s.target, ast.Name):
                    old = env.get(s.target.id, ('v', s.target.id))
                    if old[0] == 'list' and v[0] == 'list' and isinstance(s.op, ast.Add):
                        env[s.target.id] = ('list', old[1] + v[1])
                    else:
                        env[s.target.id] = self.bin(type(s.op).__name__, old, v)
                else:
                    self.update(s.target, ('aug', type(s.op).__name__, v), env)
                continue
            if isinstance(s, (ast.FunctionDef,)):
                env[s.name] = ('closure', s, dict(env))
                continue
            if isinstance(s, ast.Return):
                return self.ev(s.value, env) if s.value is not None else c(None)
            if isinstance(s, ast.Raise):
                return ('raise',)
            if isinstance(s, ast.Assert):
                continue
            if isinstance(s, ast.If):
                t = self.truth(s.test, env)
                rest = stmts[i + 1:]
                if t is not None:
                    r = self.block(s.body if t else s.orelse, env)
                    if r is not None:
                        return r
                    continue
                cond = self.ev(s.test, env)
                e1, e2 = dict(env), dict(env)
                r1 = self.block(s.body, e1)
                r2 = self.block(s.orelse, e2)
                if r1 is None and r2 is None:
                    for k in set(e1) | set(e2):
                        a, b = e1.get(k, ('v', k)), e2.get(k, ('v', k))
                        env[k] = a if a == b else ('ite', cond, a, b)
                    continue
                if r1 is None:
                    r1 = self.block(rest, e1)
                if r2 is None:
                    r2 = self.block(rest, e2)
                r1 = self.out(r1, e1)
                r2 = self.out(r2, e2)
                env['!done'] = c(1)
                return ('ite', cond, r1, r2)
            if isinstance(s, ast.For):
                self.loop(s, env)
                continue
            if isinstance(s, ast.With):
                for it in s.items:
                    v = self.ev(it.context_expr, env)
                    if it.optional_vars is not None:
                        self.bind(it.optional_vars, v, env)
                r = self.block(s.body, env)
                if r is not None:
                    return r
                continue
            raise Give()
        return None

    def out(self, r, env):
        if '!done' in env:
            return r
        eff = env.get('!effects')
        ms = tuple(sorted((k, env[k]) for k in self.muts & self.params if k in env))
        if (eff is not None or ms) and self.depth == 0:
            return ('out', r or c(None), eff or c(None), ms)
        return r if r is not None else c(None)

    def loop(self, s, env):
        if s.orelse:
            raise Give()
        for x in ast.walk(s):
            if isinstance(x, (ast.Break, ast.Return, ast.Continue)):
                raise Give()
        it = self.ev(s.iter, env)
        lit = self.literal(it)
        if lit is not None:
            for x in lit:
                self.bind(s.target, x, env)
                if self.block(s.body, env) is not None:
                    raise Give()
            return
        bs, v = self.over(it)
        carried = set()
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                carried.add(x.id)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'add', 'update', 'insert', 'sort', 'fill'):
                y = x.func.value
                while isinstance(y, (ast.Attribute, ast.Subscript)):
                    y = y.value
                if isinstance(y, ast.Name):
                    carried.add(y.id)
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                y = x
                while isinstance(y, (ast.Attribute, ast.Subscript)):
                    y = y.value
                if isinstance(y, ast.Name):
                    carried.add(y.id)
        env2 = dict(env)
        tnames = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        for k in carried:
            if env.get(k, UNK)[0] == 'call' and k not in {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} \
                    and sum(1 for v in env.values() if v == env[k]) > 1:
                self.alias = True
            env2[k] = ('acc', k)
        env2['!effects'] = ('acc', '!effects')
        self.bind(s.target, v, env2)
        start = {k: env2[k] for k in carried}
        r = self.block(s.body, env2)
        if r is not None:
            raise Give()
        for k in sorted(carried | {'!effects'}):
            new = env2.get(k)
            if k in tnames or new == ('acc', k):
                if k in tnames:
                    env[k] = UNK
                continue
            if new is None:
                continue
            init = env.get(k, ('v', k))
            if not has_acc(new, k):
                # private to an iteration
                env[k] = ('last', tuple(bs), new)
                continue
            # lists built by append are comprehensions
            if new[0] == 'app' and new[1] == ('acc', k) and init == ('list', ()) and not has_any_acc(new[2]):
                env[k] = ('comp', tuple(bs), new[2])
                continue
            if new[0] == 'ite' and new[3] == ('acc', k) and new[2][0] == 'app' and new[2][1] == ('acc', k) and init == ('list', ()) and not has_any_acc(new[2][2]):
                env[k] = ('comp', tuple(bs) + (('if', new[1]),), new[2][2])
                continue
            if new[0] == 'foldl' and new[3] == ('acc', k) and init == ('list', ()):
                env[k] = ('comp', tuple(bs) + new[1], new[2])
                continue
            if new[0] == 'fold' and new[3] == ('acc', k):
                env[k] = ('fold', tuple(bs) + new[1], new[2], init)
                continue
            body = rename_acc(new, k)
            if body[0] == 'app' and body[1] == ('acc', 0) and not has_any_acc(body[2]):
                env[k] = ('foldl', tuple(bs), body[2], init)
            else:
                env[k] = ('fold', tuple(bs), body, init)

    # ------------------------------------------------------------ a function
    def run(self, serial=None):
        self.serial = serial
        self.muts = set()
        fn = self.fn
        a = fn.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        env = {}
        for p in self.params:
            env[p] = ('v', p)
        if 'n_jobs' in self.params:
            env['n_jobs'] = NJ
        r = self.block(fn.body, env)
        return canon(self.out(r, env))


def subst(t, v, x):
    return substm(t, {v: x})


def substm(t, m):
    if not m or not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    if t and t[0] == 'closure':
        return t
    return tuple(substm(x, m) if isinstance(x, tuple) else x for x in t)


def has_acc(t, k):
    if t == ('acc', k):
        return True
    return isinstance(t, tuple) and t[:1] != ('closure',) and any(has_acc(x, k) for x in t if isinstance(x, tuple))


def has_any_acc(t):
    if isinstance(t, tuple) and len(t) == 2 and t[0] == 'acc':
        return True
    return isinstance(t, tuple) and t[:1] != ('closure',) and any(has_any_acc(x) for x in t if isinstance(x, tuple))


def rename_acc(t, k):
    if t == ('acc', k):
        return ('acc', 0)
    if not isinstance(t, tuple) or t[:1] == ('closure',):
        return t
    return tuple(rename_acc(x, k) if isinstance(x, tuple) else x for x in t)


def canon(t):
    """bound variables numbered in order of appearance"""
    m = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if len(x) == 2 and x[0] == 'b':
            return ('b', m.setdefault(x[1], len(m)))
        if x and x[0] == 'closure':
            return ('closure', x[1].name)
        return tuple(go(y) if isinstance(y, tuple) else y for y in x)
    return go(t)


def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth > 5:
        return '..'
    k = t[0]
    d = depth + 1
    if k == 'c':
        return repr(t[2])
    if k == 'v':
        return t[1]
    if k == 'b':
        return 'i%s' % t[1]
    if k == 'attr':
        return show(t[1], d) + '.' + t[2]
    if k == 'method':
        return show(t[1], d) + '.' + t[2]
    if k == 'call':
        return '%s(%s)' % (show(t[1], d), ', '.join([show(x, d) for x in t[2]] + ['%s=%s' % (n, show(x, d)) for n, x in t[3]]))
    if k == 'sub':
        return '%s[%s]' % (show(t[1], d), show(t[2], d))
    if k == 'op':
        return '(%s %s %s)' % (show(t[2], d), {'Add': '+', 'Sub': '-', 'Mult': '*', 'Pow': '**', 'Div': '/'}.get(t[1], t[1]), show(t[3], d))
    if k == 'comp':
        return '[%s %s]' % (show(t[2], d), ' '.join('for %s in %s' % (show(b[1], d), show(b[2], d)) if b[0] == 'for' else 'if %s' % show(b[1], d) for b in t[1]))
    if k == 'range':
        return 'range(%s)' % ', '.join(show(x, d) for x in t[1:])
    if k == 'len':
        return 'len(%s)' % show(t[1], d)
    if k == 'acc':
        return 'acc'
    if k == 'str' or isinstance(k, tuple):
        return '(%s)' % ', '.join(show(x, d) for x in t)
    return '%s(%s)' % (k, ', '.join(show(x, d) for x in t[1:]))


def first_diff(a, b):
    """innermost pair of differing subterms"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and (not a or not isinstance(a[0], str) or a[0] == b[0]):
        ds = [(x, y) for x, y in zip(a, b) if x != y]
        if len(ds) == 1 and isinstance(ds[0][0], tuple) and isinstance(ds[0][1], tuple):
            return first_diff(*ds[0])
        if ds and a and a[0] in ('out', 'ite', 'upd', 'fold', 'comp'):
            for x, y in ds:
                if isinstance(x, tuple) and isinstance(y, tuple):
                    return first_diff(x, y)
    return a, b
