"""Termination of loops, from the syntax tree alone.

For each condition-controlled loop, every path through one iteration that comes
back to the loop head is executed symbolically over integers of the form
`value at the head + constant` (and intervals of the values at the head).  The
loop is accepted when one sum of such quantities, each bounded below (or above)
by the loop condition, by a guard on the path or by an inductive invariant
`>= 0`, moves strictly in its direction on every path and backwards on none.
Helper functions of the package are inlined.  A path on which nothing moves is
the reported construct."""
import ast
import builtins
import copy

BUILTINS = set(dir(builtins))

CAP = 3000
SAFE_BUILTINS = {'print', 'len', 'str', 'repr', 'format', 'range', 'isinstance', 'min', 'max', 'abs', 'getattr', 'hasattr', 'tuple', 'list', 'set',
                 'dict', 'sorted', 'enumerate', 'zip', 'type', 'id', 'bool', 'sum', 'any', 'all', 'callable', 'reversed', 'super'}
SAFE_METHODS = {'append', 'add', 'items', 'keys', 'values', 'copy', 'format', 'join', 'get', 'update', 'extend', 'startswith', 'endswith'}


class Cap(Exception):
    pass


_n = [0]
INTS = set()         # unknown values that are integers, never NaN


def opaque():
    _n[0] += 1
    return ('op', _n[0])


class St:
    __slots__ = ('env', 'iv', 'guards', 'flags', 'lines')

    def __init__(self, env=None, iv=None, guards=(), flags=frozenset(), lines=()):
        self.env = env or {}
        self.iv = iv or {}
        self.guards = guards
        self.flags = flags
        self.lines = lines

    def copy(self):
        return St(dict(self.env), dict(self.iv), self.guards, self.flags, self.lines)

    def at(self, line, what):
        s = self.copy()
        s.lines = s.lines + ((line, what),)
        return s

    def key(self):
        return (tuple(sorted((k, repr(v)) for k, v in self.env.items())), tuple(sorted(self.iv.items())), self.guards, self.flags)


def text(e):
    return ast.unparse(e)


FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
NEG = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}
OPS = {ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}


def int_const(v):
    return v[2] if v[0] == 'lin' and v[1] is None else None


class Loop:
    """one loop analysed in isolation"""

    def __init__(self, db, mod, func, node):
        self.db, self.mod, self.func, self.node = db, mod, func, node
        self.L = set()
        self.depth = 0
        self.inlined = set()
        self.budget = 0

    # ---- symbolic values
    def base(self, key, st):
        if key not in st.iv:
            st.iv[key] = (0 if key in self.L or key.startswith('len(') else None, None)
        return ('lin', key, 0)

    def read(self, key, st):
        if key in st.env:
            return st.env[key]
        return self.base(key, st)

    def comp(self, v, k, n=None):
        """component k of a value"""
        if v[0] == 'tup':
            if -len(v[1]) <= k < len(v[1]):
                return v[1][k]
            return opaque()
        return None

    def keyof(self, e):
        """text key of an lvalue-like expression"""
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute) and isinstance(e.value, (ast.Name, ast.Attribute)):
            k = self.keyof(e.value)
            return None if k is None else k + '.' + e.attr
        return None

    def ev(self, e, st):
        """[(value, state)]"""
        self.budget += 1
        if self.budget > 60000:
            raise Cap()
        if isinstance(e, ast.Constant):
            if isinstance(e.value, int) and not isinstance(e.value, bool):
                return [(('lin', None, e.value), st)]
            return [(('const', e.value), st)]
        if isinstance(e, (ast.Name, ast.Attribute)):
            k = self.keyof(e)
            if k is None:
                return [(opaque(), st)]
            st = st.copy()
            return [(self.read(k, st), st)]
        if isinstance(e, ast.Tuple) or isinstance(e, ast.List):
            out = [([], st)]
            for x in e.elts:
                nxt = []
                for vs, s in out:
                    for v, s2 in self.ev(x, s):
                        nxt.append((vs + [v], s2))
                out = nxt
            return [(('tup', tuple(vs)), s) for vs, s in out]
        if isinstance(e, ast.Subscript):
            return self.ev_sub(e, st)
        if isinstance(e, ast.BinOp):
            out = []
            for a, s in self.ev(e.left, st):
                for b, s2 in self.ev(e.right, s):
                    out.append((self.arith(e.op, a, b), s2))
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return [((('lin', None, -v[2]) if int_const(v) is not None else opaque()), s) for v, s in self.ev(e.operand, st)]
        if isinstance(e, ast.IfExp):
            out = []
            for s in self.cond(e.test, True, st):
                out += self.ev(e.body, s)
            for s in self.cond(e.test, False, st):
                out += self.ev(e.orelse, s)
            return out
        if isinstance(e, (ast.Compare, ast.BoolOp)) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)):
            return [(('pred', e, dict(st.env)), st)]
        if isinstance(e, ast.NamedExpr):
            out = []
            for v, s in self.ev(e.value, st):
                s = s.copy()
                self.bind(e.target, v, s)
                out.append((v, s))
            return out
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            out = [(None, st)] if e.value is None else self.ev(e.value, st)
            r = []
            for _, s in out:
                s = s.copy()
                s.flags = s.flags | {'yield'}
                r.append((opaque(), s))
            return r
        if isinstance(e, ast.Await):
            return self.ev(e.value, st)
        if isinstance(e, ast.Call):
            return self.ev_call(e, st)
        st2 = st
        for y in ast.walk(e):
            if isinstance(y, (ast.Yield, ast.YieldFrom)):
                st2 = st.copy()
                st2.flags = st2.flags | {'yield'}
        return [(opaque(), st2)]

    def arith(self, op, a, b):
        ca, cb = int_const(a), int_const(b)
        if isinstance(op, ast.Add):
            if cb is not None and a[0] in ('lin', 'ge', 'le'):
                return (a[0], a[1], a[2] + cb)
            if ca is not None and b[0] in ('lin', 'ge', 'le'):
                return (b[0], b[1], b[2] + ca)
        if isinstance(op, ast.Sub):
            if cb is not None and a[0] in ('lin', 'ge', 'le'):
                return (a[0], a[1], a[2] - cb)
        k = cb if cb is not None else (b[1] if b[0] == 'const' and isinstance(b[1], float) else None)
        if k is not None and a[0] == 'lin' and a[1] is not None and a[2] == 0:
            if isinstance(op, ast.Mult) and k > 1 or isinstance(op, (ast.Div,)) and 0 < k < 1:
                return ('geo', a[1], 1)
            if isinstance(op, ast.Mult) and 0 < k < 1 or isinstance(op, (ast.Div, ast.FloorDiv)) and k > 1:
                return ('geo', a[1], -1)
        if ca is not None and cb is not None and isinstance(op, ast.Mult):
            return ('lin', None, ca * cb)
        return opaque()

    def ev_sub(self, e, st):
        ck = self.keyof(e.value)
        idx = None
        if isinstance(e.slice, ast.UnaryOp) and isinstance(e.slice.op, ast.USub) and isinstance(e.slice.operand, ast.Constant):
            idx = -e.slice.operand.value
        elif isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
            idx = e.slice.value
        elif isinstance(e.slice, ast.BinOp) and isinstance(e.slice.op, ast.Sub) and text(e.slice.left) == 'len(%s)' % text(e.value) \
                and isinstance(e.slice.right, ast.Constant) and e.slice.right.value == 1:
            idx = -1
        if idx is None:
            vs = self.ev(e.value, st)
            if all(v[0] == 'tup' and v[1] for v, _ in vs):
                # one of the elements of a literal
                return [(x, s2) for v, s in vs for _, s2 in self.ev(e.slice, s) for x in v[1]]
            out = []
            for _, s in self.ev(e.value, st):
                for _, s2 in self.ev(e.slice, s):
                    out.append((opaque(), s2))
            return out
        if ck is not None and not (ck in st.env and st.env[ck][0] in ('tup', 'last')):
            if idx == -1:
                st = st.copy()
                k = ck + '[-1]'
                if k in st.env:
                    return [(st.env[k], st)]
                return [(('last', k), st)]
            return [(opaque(), st)]
        out = []
        for v, s in self.ev(e.value, st):
            if v[0] == 'last':
                if idx < 0:
                    out.append((opaque(), s))
                else:
                    s = s.copy()
                    out.append((self.read('%s.%d' % (v[1], idx), s), s))
                continue
            c = self.comp(v, idx)
            out.append((c if c is not None else opaque(), s))
        return out

    # ---- calls
    def ev_call(self, e, st):
        f = e.func
        # methods of containers
        if isinstance(f, ast.Attribute):
            ck = self.keyof(f.value)
            if ck is not None and f.attr in ('append', 'appendleft', 'add', 'pop', 'popleft', 'extend', 'insert', 'remove', 'clear', 'discard', 'update'):
                out = []
                args = [(([], st))]
                for a in e.args:
                    args = [(vs + [v], s2) for vs, s in args for v, s2 in self.ev(a, s)]
                for vs, s in args:
                    s = s.copy()
                    lk = 'len(%s)' % ck
                    if f.attr in ('append', 'insert', 'appendleft'):
                        n = self.read(lk, s)
                        s.env[lk] = (n[0], n[1], n[2] + 1) if n[0] in ('lin', 'ge', 'le') else opaque()
                        if f.attr == 'append' and vs:
                            s.env[ck + '[-1]'] = vs[0]
                        else:
                            s.env[ck + '[-1]'] = opaque()
                        s.flags = s.flags | {('adds', ck)}
                    elif f.attr in ('add', 'update'):
                        n = self.read(lk, s)
                        s.env[lk] = ('ge', n[1], n[2]) if n[0] in ('lin', 'ge') else opaque()
                        s.flags = s.flags | {('adds', ck)}
                    elif f.attr in ('pop', 'popleft', 'remove'):
                        n = self.read(lk, s)
                        s.env[lk] = (n[0], n[1], n[2] - 1) if n[0] in ('lin', 'ge', 'le') else opaque()
                        s.env[ck + '[-1]'] = opaque()
                    elif f.attr == 'clear':
                        s.env[lk] = ('lin', None, 0)
                    else:
                        s.env[lk] = opaque()
                        s.env[ck + '[-1]'] = opaque()
                    out.append((opaque(), s))
                return out
        name = f.id if isinstance(f, ast.Name) else None
        if name == 'len' and len(e.args) == 1:
            k = self.keyof(e.args[0])
            if k is not None:
                st = st.copy()
                return [(self.read('len(%s)' % k, st), st)]
        if name in ('int', 'float', 'abs') and len(e.args) == 1 and name != 'abs':
            return self.ev(e.args[0], st)
        if name in ('tuple', 'list') and len(e.args) == 1:
            return [((v if v[0] == 'tup' else opaque()), s) for v, s in self.ev(e.args[0], st)]
        outs = [([], st)]
        for a in e.args:
            if isinstance(a, ast.Starred):
                a = a.value
            outs = [(vs + [v], s2) for vs, s in outs for v, s2 in self.ev(a, s)]
        for k in e.keywords:
            outs = [(vs + [v], s2) for vs, s in outs for v, s2 in self.ev(k.value, s)]
        g = self.db.resolve(self.mod, self.func, f)
        res = []
        for vs, s in outs:
            r = None
            if g is not None:
                r = self.inline(g, e, vs, s)
            if r is None:
                s = s.copy()
                # a package function may change the containers it is given
                if g is not None:
                    for a in list(e.args) + [k.value for k in e.keywords]:
                        k = self.keyof(a)
                        if k is not None and (k + '[-1]' in s.env or self.touched(k)):
                            s.env[k + '[-1]'] = opaque()
                            s.env['len(%s)' % k] = opaque()
                o = opaque()
                if (f.attr if isinstance(f, ast.Attribute) else name) in ('argmin', 'argmax', 'len', 'index', 'randint', 'searchsorted', 'count'):
                    INTS.add(o[1])
                r = [(o, s)]
            res += r
        return res

    def touched(self, k):
        return k + '[-1]' in self.seen_keys or 'len(%s)' % k in self.seen_keys

    def inline(self, g, e, vs, st):
        fn, modg, is_method = g
        if self.depth >= 2 or fn is self.func:
            return None
        n = sum(isinstance(x, ast.stmt) for x in ast.walk(fn))
        if n > 45 or any(isinstance(x, (ast.While, ast.For, ast.Try, ast.With, ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
            return None
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords) or fn.args.vararg or fn.args.kwarg:
            return None
        params = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list)
        alias = {}
        bound = {}
        if is_method and not static and params:
            recv = self.keyof(e.func.value) if isinstance(e.func, ast.Attribute) else None
            if recv is None:
                return None
            alias[params[0]] = recv
            params = params[1:]
        params += [a.arg for a in fn.args.kwonlyargs]
        exprs = list(e.args)
        i = 0
        for i, (a, v) in enumerate(zip(exprs, vs)):
            if i >= len(params):
                return None
            bound[params[i]] = (a, v)
        for k, v in zip(e.keywords, vs[len(exprs):]):
            bound[k.arg] = (k.value, v)
        self.inlined.add(fn.name)
        pre = '%s@%d:' % (fn.name, self.depth)
        # rename the callee's names: parameters that are plain names alias the
        # caller's container keys
        amap = dict(alias)
        s = st.copy()
        for p, (a, v) in bound.items():
            k = self.keyof(a)
            if k is not None:
                amap[p] = k if not self.assigned(fn, p) else pre + p
                if amap[p] != k:
                    s.env[amap[p]] = v
            else:
                amap[p] = pre + p
                s.env[pre + p] = v
        d = list(fn.args.defaults)
        for p, dv in zip(reversed([a.arg for a in fn.args.posonlyargs + fn.args.args]), reversed(d)):
            if p not in bound and p not in alias:
                amap[p] = pre + p
                s.env[pre + p] = self.ev(dv, s)[0][0]
        local = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for x in local:
            amap.setdefault(x, pre + x)
        body = [Rename(amap).visit(copy.deepcopy(x)) for x in fn.body]
        om, of = self.mod, self.func
        self.mod, self.func = modg, fn
        self.depth += 1
        try:
            outs = self.block(body, s)
        finally:
            self.depth -= 1
            self.mod, self.func = om, of
        res = []
        for kind, s2, val in outs:
            if kind == 'return':
                res.append((val if val is not None else ('const', None), s2))
            elif kind == 'next':
                res.append((('const', None), s2))
            elif kind in ('exc', 'raise'):
                self.pending_exc.append((kind, s2, val))
        return res

    def assigned(self, fn, p):
        return any(isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(fn))

    # ---- binding
    def bind(self, t, v, s):
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, opaque(), s)
                    continue
                if v[0] == 'tup':
                    c = v[1][i] if i < len(v[1]) else opaque()
                elif v[0] == 'last':
                    c = self.read('%s.%d' % (v[1], i), s)
                else:
                    c = opaque()
                self.bind(x, c, s)
            return
        k = self.keyof(t)
        if k is not None:
            s.env[k] = v
            if v[0] != 'last':
                # a new object: what is known of its elements goes
                for kk in (k + '[-1]', 'len(%s)' % k):
                    if kk in self.seen_keys or kk in s.env:
                        s.env[kk] = opaque()
                if v[0] == 'tup':
                    s.env['len(%s)' % k] = ('lin', None, len(v[1]))
                    if v[1]:
                        s.env[k + '[-1]'] = v[1][-1]
            else:
                pass
            return
        if isinstance(t, ast.Subscript):
            ck = self.keyof(t.value)
            if ck is not None:
                if isinstance(t.slice, ast.UnaryOp) and isinstance(t.slice.operand, ast.Constant) and t.slice.operand.value == 1:
                    s.env[ck + '[-1]'] = v
                elif ck + '[-1]' in self.seen_keys:
                    s.env[ck + '[-1]'] = opaque()

    # ---- conditions
    def cond(self, e, truth, st):
        """states in which e has the truth value"""
        if isinstance(e, ast.Constant):
            return [st] if bool(e.value) == truth else []
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.cond(e.operand, not truth, st)
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And)
            if conj == truth:
                sts = [st]
                for x in e.values:
                    sts = [s2 for s in sts for s2 in self.cond(x, truth, s)]
                return sts
            out = []
            sts = [st]
            for x in e.values:
                nxt = []
                for s in sts:
                    out += self.cond(x, truth, s)
                    nxt += self.cond(x, not truth, s)
                sts = nxt
            return out
        if isinstance(e, ast.Compare):
            if len(e.ops) > 1:
                parts = []
                left = e.left
                for o, r in zip(e.ops, e.comparators):
                    parts.append(ast.Compare(left=left, ops=[o], comparators=[r]))
                    left = r
                return self.cond(ast.BoolOp(op=ast.And(), values=parts), truth, st)
            op = OPS.get(type(e.ops[0]))
            out = []
            for a, s in self.ev(e.left, st):
                for b, s2 in self.ev(e.comparators[0], s):
                    out += self.compare(op, a, b, e.left, e.comparators[0], truth, s2)
            return out
        if isinstance(e, ast.NamedExpr) or isinstance(e, (ast.Name, ast.Attribute, ast.Call)):
            out = []
            for v, s in self.ev(e, st):
                if v[0] == 'pred':
                    env = s.env
                    s3 = s.copy()
                    s3.env = dict(v[2])
                    for r in self.cond(v[1], truth, s3):
                        r = r.copy()
                        r.env = dict(env)
                        out.append(r)
                    continue
                if v[0] == 'const':
                    if bool(v[1]) == truth:
                        out.append(s)
                    continue
                c = int_const(v)
                if c is not None:
                    if bool(c) == truth:
                        out.append(s)
                    continue
                if v[0] == 'lin' and v[1] is not None:
                    # truthiness: a number that is not 0, or a container that is not empty
                    k = v[1]
                    if self.is_container(k):
                        s = s.copy()
                        n = self.read('len(%s)' % k, s)
                        out += self.compare('>', n, ('lin', None, 0), e, ast.Constant(value=0), truth, s)
                        continue
                    out += self.compare('!=', v, ('lin', None, 0), e, ast.Constant(value=0), truth, s)
                    continue
                out.append(s)
            return out
        out = []
        for v, s in self.ev(e, st):
            out.append(s)
        return out

    def is_container(self, k):
        return 'len(%s)' % k in self.seen_keys or k + '[-1]' in self.seen_keys

    def compare(self, op, a, b, ea, eb, truth, st):
        if op is None:
            return [st]
        if not truth:
            op = NEG[op]
        # tuples: element by element
        ta = self.as_tuple(a, b, st)
        tb = self.as_tuple(b, a, st)
        if ta is not None and tb is not None and op in ('==', '!='):
            if len(ta) != len(tb):
                return [st] if op == '!=' else []
            if op == '==':
                sts = [st]
                for x, y in zip(ta, tb):
                    sts = [s2 for s in sts for s2 in self.compare('==', x, y, ea, eb, True, s)]
                return sts
            out = []
            sts = [st]
            for x, y in zip(ta, tb):
                nxt = []
                for s in sts:
                    out += self.compare('!=', x, y, ea, eb, True, s)
                    nxt += self.compare('==', x, y, ea, eb, True, s)
                sts = nxt
            return out
        s = st.copy()
        s.guards = s.guards + ((a, op, b, text(eb)), (b, FLIP[op], a, text(ea)))
        for v, o, w in ((a, op, b), (b, FLIP[op], a)):
            c = int_const(w)
            if c is None:
                continue
            if v[0] == 'const':
                return [s]
            if v[0] == 'op' and v[1] in INTS:
                v = ('lin', '?%d' % v[1], 0)
            if v[0] != 'lin':
                continue
            if v[1] is None:
                x = v[2]
                ok = {'<': x < c, '>': x > c, '<=': x <= c, '>=': x >= c, '==': x == c, '!=': x != c}[o]
                return [s] if ok else []
            lo, hi = s.iv.get(v[1], (None, None))
            t = c - v[2]
            if o == '<':
                hi = t - 1 if hi is None else min(hi, t - 1)
            elif o == '<=':
                hi = t if hi is None else min(hi, t)
            elif o == '>':
                lo = t + 1 if lo is None else max(lo, t + 1)
            elif o == '>=':
                lo = t if lo is None else max(lo, t)
            elif o == '==':
                if (lo is not None and t < lo) or (hi is not None and t > hi):
                    return []
                lo = hi = t
            elif o == '!=':
                if lo is not None and lo == t:
                    lo = t + 1
                if hi is not None and hi == t:
                    hi = t - 1
            if lo is not None and hi is not None and lo > hi:
                return []
            s.iv[v[1]] = (lo, hi)
        return [s]

    def as_tuple(self, v, other, st):
        if v[0] == 'tup':
            return v[1]
        if v[0] == 'last' and other[0] == 'tup':
            return tuple(self.read('%s.%d' % (v[1], i), st) for i in range(len(other[1])))
        return None

    # ---- statements
    def block(self, stmts, st):
        cur = [st]
        out = []
        for s in stmts:
            nxt = []
            seen = set()
            for x in cur:
                for o in self.stmt(s, x):
                    if o[0] == 'next':
                        k = o[1].key()
                        if k in seen:
                            continue
                        seen.add(k)
                        nxt.append(o[1])
                    else:
                        out.append(o)
            cur = nxt
            if len(cur) + len(out) > CAP:
                raise Cap()
            if not cur:
                break
        return out + [('next', x, None) for x in cur]

    def risky(self, s):
        """calls of the statement itself that may raise"""
        r = []
        for x in ast.walk(s) if not isinstance(s, (ast.If, ast.While)) else ast.walk(s.test):
            if isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Name) and f.id in SAFE_BUILTINS:
                    continue
                if isinstance(f, ast.Attribute) and f.attr in SAFE_METHODS:
                    continue
                r.append(x)
        return r

    def stmt(self, s, st):
        out = []
        self.pending_exc = []
        if self.tries:
            for c in self.risky(s) if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return, ast.If, ast.While, ast.Delete, ast.Assert)) else []:
                pk = self.db.resolve(self.mod, self.func, c.func)
                ext = self.db.external(self.mod, c.func)
                out.append(('exc', st.at(c.lineno, 'call raises'), 'pkg' if not ext else 'ext'))
        if isinstance(s, ast.Expr):
            r = [('next', x, None) for _, x in self.ev(s.value, st)]
        elif isinstance(s, ast.Assign):
            r = []
            for v, x in self.ev(s.value, st):
                x = x.copy()
                for t in s.targets:
                    self.bind(t, v, x)
                r.append(('next', x, None))
        elif isinstance(s, ast.AnnAssign):
            r = []
            if s.value is None:
                r = [('next', st, None)]
            else:
                for v, x in self.ev(s.value, st):
                    x = x.copy()
                    self.bind(s.target, v, x)
                    r.append(('next', x, None))
        elif isinstance(s, ast.AugAssign):
            r = []
            k = self.keyof(s.target)
            for v, x in self.ev(s.value, st):
                x = x.copy()
                if k is None:
                    r.append(('next', x, None))
                    continue
                if self.is_container(k) and isinstance(s.op, ast.Add):
                    n = self.read('len(%s)' % k, x)
                    x.env['len(%s)' % k] = (n[0], n[1], n[2] + len(v[1])) if v[0] == 'tup' and n[0] in ('lin', 'ge') else opaque()
                    x.env[k + '[-1]'] = v[1][-1] if v[0] == 'tup' and v[1] else opaque()
                    r.append(('next', x, None))
                    continue
                if isinstance(s.op, ast.BitOr):
                    x.flags = x.flags | {('adds', k)}
                cur = self.read(k, x)
                x.env[k] = self.arith(s.op, cur, v)
                r.append(('next', x, None))
        elif isinstance(s, ast.If):
            r = []
            for x in self.cond(s.test, True, st):
                r += self.block(s.body, x.at(s.lineno, 'if ' + text(s.test)[:50]))
            for x in self.cond(s.test, False, st):
                r += self.block(s.orelse, x.at(s.lineno, 'if not ' + text(s.test)[:50])) if s.orelse else [('next', x.at(s.lineno, 'if not ' + text(s.test)[:50]), None)]
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            r = self.inner_loop(s, st)
        elif isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            r = self.do_try(s, st)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            x = st
            for it in s.items:
                x = self.ev(it.context_expr, x)[0][1]
                if it.optional_vars is not None:
                    x = x.copy()
                    self.bind(it.optional_vars, opaque(), x)
            r = self.block(s.body, x)
        elif isinstance(s, ast.Return):
            r = [('return', x, v) for v, x in (self.ev(s.value, st) if s.value is not None else [(None, st)])]
        elif isinstance(s, ast.Raise):
            nm = None
            if s.exc is not None:
                c = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                nm = c.id if isinstance(c, ast.Name) else c.attr if isinstance(c, ast.Attribute) else None
            r = [('raise', st.at(s.lineno, 'raise'), nm)]
        elif isinstance(s, ast.Break):
            r = [('break', st, None)]
        elif isinstance(s, ast.Continue):
            r = [('continue', st.at(s.lineno, 'continue'), None)]
        elif isinstance(s, ast.Match):
            r = []
            x = self.ev(s.subject, st)[0][1]
            for c in s.cases:
                r += self.block(c.body, x.at(c.pattern.lineno, 'case'))
            r.append(('next', x, None))
        elif isinstance(s, ast.Assert):
            r = [('next', x, None) for x in self.cond(s.test, True, st)]
        elif isinstance(s, ast.Delete):
            x = st.copy()
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    k = self.keyof(t.value)
                    if k is not None:
                        n = self.read('len(%s)' % k, x)
                        one = not isinstance(t.slice, ast.Slice)
                        x.env['len(%s)' % k] = (n[0], n[1], n[2] - 1) if one and n[0] in ('lin', 'le') else opaque()
                        x.env[k + '[-1]'] = opaque()
            r = [('next', x, None)]
        else:
            r = [('next', st, None)]
        if self.tries:
            out += self.pending_exc
        return out + r

    def do_try(self, s, st):
        self.tries += 1
        try:
            outs = self.block(s.body, st)
        finally:
            self.tries -= 1
        res = []
        for kind, x, val in outs:
            if kind == 'next' and s.orelse:
                res += self.block(s.orelse, x)
                continue
            if kind not in ('exc', 'raise'):
                res.append((kind, x, val))
                continue
            caught = False
            for h in s.handlers:
                names = self.db.handler_names(h)
                if kind == 'raise':
                    if val is not None and names is not None and not any(self.db.catches(n, val) for n in names):
                        continue
                    caught = True
                else:
                    if names is not None and val == 'ext' and all(self.db.is_package_exc(n) for n in names):
                        continue
                res += self.block(h.body, x.at(h.lineno, 'except ' + '|'.join(names or ['any'])))
                if kind == 'raise':
                    break
            if not caught:
                res.append((kind, x, val))
        if s.finalbody:
            fin = []
            for kind, x, val in res:
                for k2, x2, v2 in self.block(s.finalbody, x):
                    fin.append((kind, x2, val) if k2 == 'next' else (k2, x2, v2))
            res = fin
        return res

    def inner_loop(self, s, st):
        """any number of iterations: what it assigns is unknown, up to monotone counters"""
        x = st.copy()
        keys = {}
        for y in ast.walk(s):
            if isinstance(y, ast.AugAssign):
                k = self.keyof(y.target)
                if k is None:
                    continue
                d = 0
                if isinstance(y.value, ast.Constant) and isinstance(y.value.value, int) and isinstance(y.op, (ast.Add, ast.Sub)):
                    d = 1 if (y.value.value >= 0) == isinstance(y.op, ast.Add) else -1
                keys.setdefault(k, set()).add(d)
            elif isinstance(y, (ast.Name, ast.Attribute)) and isinstance(y.ctx, ast.Store):
                k = self.keyof(y)
                if k is not None and not self.aug_target(s, y):
                    keys.setdefault(k, set()).add(0)
            elif isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute):
                k = self.keyof(y.func.value)
                if k is not None:
                    if y.func.attr in ('append', 'add', 'extend', 'update', 'insert'):
                        keys.setdefault('len(%s)' % k, set()).add(1)
                        keys.setdefault(k + '[-1]', set()).add(0)
                    elif y.func.attr in ('pop', 'remove', 'popleft', 'clear', 'discard'):
                        keys.setdefault('len(%s)' % k, set()).add(-1)
                        keys.setdefault(k + '[-1]', set()).add(0)
        for k, ds in keys.items():
            if k.endswith('[-1]') and k not in self.seen_keys:
                continue
            v = self.read(k, x)
            if ds == {1} and v[0] in ('lin', 'ge') and v[1] is not None:
                x.env[k] = ('ge', v[1], v[2])
            elif ds == {-1} and v[0] in ('lin', 'le') and v[1] is not None:
                x.env[k] = ('le', v[1], v[2])
            else:
                x.env[k] = opaque()
        r = []
        entry = x
        if isinstance(s, ast.While):
            bodies = self.cond(s.test, True, entry.copy())
        else:
            b = entry.copy()
            self.bind(s.target, opaque(), b)
            bodies = [b]
        once = False
        for b in bodies:
            for kind, y, val in self.block(s.body, b):
                if kind in ('return', 'raise', 'exc'):
                    r.append((kind, y, val))
                elif kind == 'break':
                    z = y.copy()
                    r.append(('next', z, None))
        exits = [entry] if not isinstance(s, ast.While) else self.cond(s.test, False, entry)
        for z in exits:
            z = z.copy()
            z.flags = z.flags | self.must_add(s)
            r += self.block(s.orelse, z) if s.orelse else [('next', z, None)]
        return r

    def must_add(self, s):
        """containers every iteration of a for loop adds to"""
        if not isinstance(s, ast.For):
            return frozenset()
        it = self.keyof(s.iter)
        if it is None:
            return frozenset()
        sets = None
        for kind, y, val in self.block(s.body, St(iv={})):
            if kind in ('next', 'continue'):
                f = {x[1] for x in y.flags if isinstance(x, tuple) and x[0] == 'adds'}
                sets = f if sets is None else sets & f
        return frozenset(('each', it, v) for v in (sets or ()))

    def aug_target(self, s, node):
        return any(isinstance(y, ast.AugAssign) and y.target is node for y in ast.walk(s))

    # ---- the whole loop
    def collect_seen(self):
        self.seen_keys = set()
        fns = [self.node]
        for y in list(ast.walk(self.node)):
            if isinstance(y, ast.Call):
                g = self.db.resolve(self.mod, self.func, y.func)
                if g is not None:
                    fns.append(g[0])
        for f in fns:
            for y in ast.walk(f):
                if isinstance(y, ast.Subscript):
                    k = self.keyof(y.value)
                    sl = y.slice
                    if k is not None and text(sl) == 'len(%s) - 1' % k:
                        self.seen_keys.add(k + '[-1]')
                    if k is not None and isinstance(sl, ast.UnaryOp) and isinstance(sl.operand, ast.Constant) and sl.operand.value == 1:
                        self.seen_keys.add(k + '[-1]')
                elif isinstance(y, ast.Call):
                    if isinstance(y.func, ast.Name) and y.func.id == 'len' and y.args:
                        k = self.keyof(y.args[0])
                        if k is not None:
                            self.seen_keys.add('len(%s)' % k)
                    elif isinstance(y.func, ast.Attribute) and y.func.attr in ('pop', 'popleft', 'append', 'remove', 'appendleft', 'extend'):
                        k = self.keyof(y.func.value)
                        if k is not None:
                            self.seen_keys.add('len(%s)' % k)
                            self.seen_keys.add(k + '[-1]')

    def head(self):
        st = St()
        if isinstance(self.node, ast.While):
            return self.cond(self.node.test, True, st)
        self.bind(self.node.target, opaque(), st)
        return [st]

    def paths(self):
        self.tries = 0
        self.pending_exc = []
        self.budget = 0
        out = []
        exits = 0
        for s in self.head():
            for kind, x, val in self.block(self.node.body, s):
                if kind in ('next', 'continue'):
                    out.append(x)
                else:
                    exits += 1
        return out, exits

    def delta(self, st, key, step=None):
        """('eq', c) | ('ge', c) | ('le', c) | ('geo', +-1) | None"""
        if step is not None and key == step[0]:
            return ('eq', step[1])
        v = st.env.get(key)
        if v is None:
            if key.endswith(']') is False and '[-1].' in key:
                k, i = key.rsplit('.', 1)
                w = st.env.get(k)
                if w is None:
                    return ('eq', 0)
                if w[0] == 'last' and w[1] == k:
                    return ('eq', 0)
                if w[0] == 'tup' and int(i) < len(w[1]):
                    v = w[1][int(i)]
                else:
                    return None
            else:
                return ('eq', 0)
        if v[0] == 'lin' and v[1] == key:
            return ('eq', v[2])
        if v[0] == 'lin' and v[1] is None:
            # a constant, against what is known of the value at the head
            lo, hi = st.iv.get(key, (0 if key in self.L else None, None))
            if lo is not None and lo == hi:
                return ('eq', v[2] - lo)
            if lo is not None and v[2] - lo <= 0:
                return ('le', v[2] - lo)
            if hi is not None and v[2] - hi >= 0:
                return ('ge', v[2] - hi)
        if v[0] in ('ge', 'le', 'geo') and v[1] == key:
            return (v[0], v[2])
        return None

    def end_value(self, st, key):
        v = st.env.get(key)
        if v is None and '[-1].' in key:
            k, i = key.rsplit('.', 1)
            w = st.env.get(k)
            if w is not None and w[0] == 'tup' and int(i) < len(w[1]):
                v = w[1][int(i)]
            elif w is not None and not (w[0] == 'last' and w[1] == k):
                return opaque()
        return v if v is not None else ('lin', key, 0)

    def invariant_text(self, t):
        """the expression does not change from one iteration to the next"""
        try:
            e = ast.parse(t, mode='eval').body
        except SyntaxError:
            return False
        for y in ast.walk(e):
            k = self.keyof(y) if isinstance(y, (ast.Name, ast.Attribute)) else None
            if k is not None and k in self.assigned_keys:
                return False
            if isinstance(y, (ast.Yield, ast.YieldFrom, ast.NamedExpr)):
                return False
        return True

    def bounded(self, st, key, up):
        for a, op, b, bt in st.guards:
            if a[0] not in ('lin', 'ge', 'le') or a[1] != key:
                continue
            ok = op in (('<', '<=', '!=', '==') if up else ('>', '>=', '!=', '=='))
            if up and a[0] == 'le' or not up and a[0] == 'ge':
                ok = False
            if not ok:
                continue
            if op == '!=' and not (a[0] == 'lin' and all(
                    self.delta(q, key, self.step) == ('eq', 0) or 'yield' in q.flags
                    or self.delta(q, key, self.step) == ('eq', 1 if up else -1) and any(
                        g[0] == a and g[1] in ('!=',) + (('<', '<=') if up else ('>', '>=')) and g[3] == bt for g in q.guards)
                    for q in self.all_paths)):
                continue
            if int_const(b) is not None and not bt.isidentifier():
                return True
            if b[0] == 'lin' and b[1] is not None and b[1] in self.changing:
                continue
            if b[0] in ('ge', 'le', 'geo') and b[1] in self.changing:
                continue
            if b[0] == 'op' and not self.invariant_text(bt):
                continue
            if 'inf' in bt.replace('.', ' ').split() or b[0] == 'lin' and b[1] is not None and self.infinite(b[1]):
                continue
            return True
        return False

    def infinite(self, name):
        """the bound is (possibly) infinity"""
        if self.func is None:
            return False
        for y in ast.walk(self.func):
            if isinstance(y, ast.Assign) and any(self.keyof(t) == name for t in y.targets):
                for z in ast.walk(y.value):
                    if isinstance(z, (ast.Name, ast.Attribute)) and (z.id if isinstance(z, ast.Name) else z.attr) == 'inf':
                        return True
        return False

    def analyse(self, step=None, need=None):
        """None when accepted, else (message, path lines)"""
        self.collect_seen()
        self.assigned_keys = set()
        for y in ast.walk(self.node):
            if isinstance(y, (ast.Name, ast.Attribute)) and isinstance(y.ctx, (ast.Store, ast.Del)):
                k = self.keyof(y)
                if k:
                    self.assigned_keys.add(k)
        self.L = set()
        ps, exits = self.paths()
        if not ps:
            return None
        keys = set()
        for p in ps:
            for k in list(p.env):
                keys.add(k)
                w = p.env[k]
                if k.endswith('[-1]'):
                    if w[0] == 'tup':
                        keys |= {'%s.%d' % (k, i) for i in range(len(w[1]))}
            keys |= set(p.iv)
        if step is not None:
            keys.add(step[0])
        keys = {k for k in keys if not k.startswith('?')}
        # inductive lower bounds
        self.L = set(keys)
        while True:
            ps, exits = self.paths()
            bad = set()
            for p in ps:
                for k in self.L:
                    v = self.end_value(p, k)
                    if v[0] in ('lin', 'ge'):
                        if v[1] is None:
                            ok = v[2] >= 0
                        else:
                            lo = p.iv.get(v[1], (0 if v[1] in self.L else None, None))[0]
                            ok = lo is not None and lo + v[2] >= 0
                    else:
                        ok = False
                    if not ok:
                        bad.add(k)
            if not bad:
                break
            self.L -= bad
        self.npaths = len(ps)
        self.all_paths = ps
        self.step = step
        self.changing = set()
        D, U = set(keys), set(keys)
        for p in ps:
            if 'yield' in p.flags:
                continue
            for k in keys:
                d = self.delta(p, k, step)
                if d != ('eq', 0):
                    self.changing.add(k)
                if d is None:
                    D.discard(k)
                    U.discard(k)
                elif d[0] == 'eq':
                    if d[1] > 0:
                        D.discard(k)
                    if d[1] < 0:
                        U.discard(k)
                elif d[0] == 'ge':
                    D.discard(k)
                    if d[1] < 0:
                        U.discard(k)
                elif d[0] == 'le':
                    U.discard(k)
                    if d[1] > 0:
                        D.discard(k)
                elif d[0] == 'geo':
                    (D if d[1] > 0 else U).discard(k)
        self.measure = set()
        for p in ps:
            if 'yield' in p.flags:
                self.measure.add('yield')
                continue
            ok = False
            for k in sorted(D):
                d = self.delta(p, k, step)
                if (d[0] in ('eq', 'le') and d[1] < 0 or d[0] == 'geo') and (k in self.L and d[0] != 'geo' or self.bounded(p, k, False)):
                    ok = True
                    self.measure.add('-' + k)
            for k in sorted(U):
                d = self.delta(p, k, step)
                if (d[0] in ('eq', 'ge') and d[1] > 0 or d[0] == 'geo') and self.bounded(p, k, True):
                    ok = True
                    self.measure.add('+' + k)
            if not ok:
                w = self.worklist(p)
                if w:
                    self.measure.add(w)
                    continue
                if need is not None and not need(self, p):
                    continue
                return p
        return None

    # ---- worklists over a finite universe
    def worklist(self, p):
        if not isinstance(self.node, ast.While):
            return None
        t = self.node.test
        w = None
        if isinstance(t, ast.Name):
            w = t.id
        elif isinstance(t, ast.Compare) and isinstance(t.left, ast.Call) and isinstance(t.left.func, ast.Name) and t.left.func.id == 'len':
            w = self.keyof(t.left.args[0])
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'len':
            w = self.keyof(t.args[0])
        if w is None:
            return None
        visited = {f[2] for f in p.flags if isinstance(f, tuple) and f[0] == 'each' and f[1] == w}
        if not visited:
            return None
        # every assignment of the worklist only contains elements not visited
        for y in ast.walk(self.node):
            if isinstance(y, ast.Assign) and any(self.keyof(x) == w for x in y.targets):
                if not self.excludes(y.value, visited):
                    return None
        return 'worklist %s \\ %s' % (w, '/'.join(sorted(visited)))

    def excludes(self, e, visited):
        """the value only holds elements that are not in the visited set, out of a bounded universe"""
        if isinstance(e, ast.Call):
            g = self.db.resolve(self.mod, self.func, e.func)
            if g is not None:
                fn, _, is_m = g
                params = [a.arg for a in fn.args.posonlyargs + fn.args.args]
                if is_m and not any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list):
                    params = params[1:]
                vis = set()
                for p, a in zip(params, e.args):
                    if self.keyof(a) in visited:
                        vis.add(p)
                for k in e.keywords:
                    if self.keyof(k.value) in visited:
                        vis.add(k.arg)
                vis |= {v for v in visited if v.startswith('self.')}
                if not vis:
                    return False
                body = ast.Module(body=fn.body, type_ignores=[])
                return self.diff(body, vis, returns=True) and self.universe(fn)
        return self.diff(e, visited) and (self.universe(self.func) if self.func is not None else True)

    def diff(self, e, vis, returns=False):
        for y in ast.walk(e):
            if isinstance(y, ast.BinOp) and isinstance(y.op, ast.Sub) and self.names(y.right) & vis:
                return True
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ('difference', 'difference_update') and any(self.names(a) & vis for a in y.args):
                return True
            if isinstance(y, ast.AugAssign) and isinstance(y.op, ast.Sub) and self.names(y.value) & vis:
                return True
            if isinstance(y, ast.Compare) and any(isinstance(o, (ast.NotIn, ast.In)) for o in y.ops) and any(self.names(c) & vis for c in y.comparators):
                return True
        return False

    def names(self, e):
        return {self.keyof(y) for y in ast.walk(e) if isinstance(y, (ast.Name, ast.Attribute))} - {None}

    def universe(self, fn):
        """each quantity the function increments is compared with a bound there"""
        inc = set()
        for y in ast.walk(fn):
            if isinstance(y, ast.BinOp) and isinstance(y.op, ast.Add) and isinstance(y.right, ast.Constant) and isinstance(y.right.value, int) \
                    and self.keyof(y.left) and not self.in_compare(fn, y):
                inc.add(self.keyof(y.left))
        if not inc:
            return True
        ok = set()
        for y in ast.walk(fn):
            if isinstance(y, ast.Compare):
                ops = [y.left] + y.comparators
                if not any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in y.ops):
                    continue
                for a, o, b in zip(ops, y.ops, ops[1:]):
                    for x, other in ((a, b), (b, a)):
                        if isinstance(other, (ast.Name, ast.Attribute)) or isinstance(other, ast.Constant) and isinstance(other.value, int) and other.value > 0:
                            up = isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE))
                            if up:
                                ok |= self.names(x)
            elif isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('min', 'range'):
                for a in y.args:
                    ok |= self.names(a)
        # candidates filtered through a comprehension variable
        filt = any(isinstance(y, ast.comprehension) and y.ifs for y in ast.walk(fn)) and len([k for k in ok]) > 0
        return inc <= ok or filt

    def in_compare(self, fn, node):
        return any(isinstance(y, ast.Compare) and any(z is node for z in ast.walk(y)) for y in ast.walk(fn))


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        k = self.m.get(n.id)
        if k is None:
            return n
        if '.' in k and ':' not in k:
            e = ast.parse(k, mode='eval').body
            if isinstance(n.ctx, ast.Store):
                e.ctx = ast.Store()
            return ast.copy_location(e, n)
        return ast.copy_location(ast.Name(id=k, ctx=n.ctx), n)


class DB:
    """functions of the package by module, for name resolution"""

    def __init__(self, trees, ispkg=()):
        self.trees = trees          # modname -> ast
        self.ispkg = ispkg
        self.funcs = {}             # (mod, name) -> def
        self.classes = {}           # (mod, name) -> classdef
        self.imports = {}           # mod -> {name: (module, attr)}
        self.parents = {}
        self.encl = {}
        self.excs = set()
        self.methods = set()
        self.nested = {}
        self.outer = {}
        for m, t in trees.items():
            imp = {}
            for n in ast.walk(t):
                if isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        base = n.module or ''
                        if n.level:
                            pk = m.split('.') + ([''] if m in self.ispkg else [])
                            base = '.'.join(pk[:len(pk) - n.level] + ([n.module] if n.module else []))
                        imp[a.asname or a.name] = (base, a.name)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        imp[a.asname or a.name.split('.')[0]] = (a.name, None)
            self.imports[m] = imp
            self.index(m, t, None)
        for (m, n), c in self.classes.items():
            self.methods |= {x.name for x in c.body if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))}
            for b in c.bases:
                if isinstance(b, ast.Name) and (b.id.endswith('Error') or b.id == 'Exception'):
                    self.excs.add(n)

    def index(self, m, t, cls, fn=None):
        for n in ast.iter_child_nodes(t):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.encl[n] = cls
                if fn is not None:
                    self.nested.setdefault(fn, []).append(n)
                    self.outer[n] = fn
                elif cls is None:
                    self.funcs.setdefault((m, n.name), n)
                self.index(m, n, cls, n)
            elif isinstance(n, ast.ClassDef):
                self.classes[(m, n.name)] = n
                self.index(m, n, n, fn)
            else:
                self.index(m, n, cls, fn)

    def lookup(self, m, name, depth=0):
        if (m, name) in self.funcs:
            return self.funcs[(m, name)], m
        imp = self.imports.get(m, {}).get(name)
        if imp and depth < 6 and imp[1]:
            for mm in (imp[0],):
                if mm in self.trees:
                    return self.lookup(mm, imp[1], depth + 1)
        return None

    def cls_lookup(self, m, name, depth=0):
        if (m, name) in self.classes:
            return self.classes[(m, name)], m
        imp = self.imports.get(m, {}).get(name)
        if imp and depth < 6 and imp[1] and imp[0] in self.trees:
            return self.cls_lookup(imp[0], imp[1], depth + 1)
        return None

    def method(self, m, c, name, depth=0):
        for n in c.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name:
                return n, m
        if depth > 8:
            return None
        for b in c.bases:
            if isinstance(b, ast.Name):
                r = self.cls_lookup(m, b.id)
                if r:
                    x = self.method(r[1], r[0], name, depth + 1)
                    if x:
                        return x
        return None

    def resolve(self, mod, func, f):
        """(def, module, is_method) of a callee, or None"""
        if isinstance(f, ast.Name):
            o = func
            while o is not None:
                for x in self.nested.get(o, ()):
                    if x.name == f.id:
                        return x, mod, False
                o = self.outer.get(o)
            r = self.lookup(mod, f.id)
            return (r[0], r[1], False) if r else None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            if f.value.id in ('self', 'cls'):
                c = self.encl.get(func)
                if c is not None:
                    r = self.method(mod, c, f.attr)
                    if r:
                        return r[0], r[1], True
                return None
            c = self.cls_lookup(mod, f.value.id)
            if c:
                r = self.method(c[1], c[0], f.attr)
                if r and any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in r[0].decorator_list):
                    return r[0], r[1], True
        return None

    def external(self, mod, f):
        """the callee cannot be code of the package"""
        x = f
        while isinstance(x, (ast.Attribute, ast.Call, ast.Subscript)):
            x = x.func if isinstance(x, ast.Call) else x.value
        if not isinstance(x, ast.Name):
            return True
        if x.id in ('self', 'cls'):
            return False
        imp = self.imports.get(mod, {}).get(x.id)
        if imp:
            return not imp[0].startswith('tslearn')
        if isinstance(f, ast.Name):
            return self.lookup(mod, f.id) is None and self.cls_lookup(mod, f.id) is None and f.id in BUILTINS
        return f.attr not in self.methods if isinstance(f, ast.Attribute) else False

    def handler_names(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        r = []
        for t in ts:
            r.append(t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else '?')
        if any(n in ('Exception', 'BaseException', '?') for n in r):
            return None
        return r

    def catches(self, handler, exc):
        if handler == exc:
            return True
        a, b = getattr(builtins, handler, None), getattr(builtins, exc, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(b, a)
        for (m, n), c in self.classes.items():
            if n == exc:
                return any(isinstance(x, ast.Name) and self.catches(handler, x.id) for x in c.bases if not (isinstance(x, ast.Name) and x.id == exc))
        return False

    def is_package_exc(self, n):
        return n in self.excs
