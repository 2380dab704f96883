"""Coverage of arrays allocated without initialisation.

For every call of numpy / torch / backend `empty` (and the like) the function is
followed over its structured control flow. Sizes and indices are polynomials over
symbols (sizes of arrays, attributes, loop variables); a write covers a box of
index intervals, a loop turns the boxes its body writes for one value of the loop
variable into the box of all values. Reading a cell, handing the array to code
that is not followed, storing or returning it requires that the boxes written so
far cover the cells involved. Functions that receive an unfinished array (or
return a fresh one) are followed with the sizes of the caller."""
import ast
import itertools

ALLOC = {'empty', 'empty_like', 'empty_strided', 'new_empty', 'ndarray', 'empty_permuted'}
LOOPFNS = {'range', 'prange'}
HARMLESS = {'shape', 'dtype', 'ndim', 'size', 'device', 'itemsize', 'nbytes', 'strides', 'flags'}


# ------------------------------------------------------------ polynomials
def pc(k):
    return {(): k} if k else {}


def ps(s):
    return {(s,): 1}


def padd(a, b, s=1):
    if a is None or b is None:
        return None
    r = dict(a)
    for m, x in b.items():
        r[m] = r.get(m, 0) + s * x
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    if a is None or b is None:
        return None
    r = {}
    for m, x in a.items():
        for n, y in b.items():
            k = tuple(sorted(m + n, key=str))
            r[k] = r.get(k, 0) + x * y
    return {k: v for k, v in r.items() if v}


def isconst(p):
    return p is not None and all(m == () for m in p)


def cval(p):
    return p.get((), 0)


def syms(p):
    return {s for m in (p or {}) for s in m}


def psub(p, s, q):
    """p with symbol s replaced by q"""
    r = {}
    for m, x in p.items():
        t = pc(x)
        for y in m:
            t = pmul(t, q if y == s else ps(y))
        r = padd(r, t)
    return r


def linear(p, s):
    """(a, b) with p = a * s + b, s not in a, b; None otherwise"""
    a, b = {}, {}
    for m, x in p.items():
        n = m.count(s)
        if n == 0:
            b[m] = x
        elif n == 1:
            k = list(m)
            k.remove(s)
            a[tuple(k)] = x
        else:
            return None
    return a, b


class Arr:
    """an array allocated without initialisation"""
    n = itertools.count(1)

    def __init__(self, dims, node, fn, rank, src=None):
        self.dims, self.node, self.fn, self.rank, self.src = dims, node, fn, rank, src
        self.id = next(Arr.n)

    def dim(self, k):
        if self.dims is not None and 0 <= k < len(self.dims):
            return self.dims[k]
        if self.src is not None:
            return ps('%s.dim%d' % (self.src, k))
        return ps('arr%d.dim%d' % (self.id, k))


class Box:
    """index intervals per dimension (missing: everything); excluded points"""

    def __init__(self, iv, excl=(), tri=None):
        self.iv, self.excl, self.tri = tuple(iv), tuple(excl), tri

    def key(self):
        f = lambda p: None if p is None else tuple(sorted(p.items(), key=str))
        return (tuple(None if i is None else (f(i[0]), f(i[1])) for i in self.strip()), tuple(str(e) for e in self.excl), self.tri and str(self.tri))

    def strip(self):
        iv = list(self.iv)
        while iv and iv[-1] is None:
            iv.pop()
        return iv


class Found(Exception):
    pass


class Path:
    """end of a path other than falling through"""

    def __init__(self, kind, cov, cond):
        self.kind, self.cov, self.cond = kind, cov, cond


class Fn:
    def __init__(self, node, mod, qual, env=None, cls=None):
        self.node, self.mod, self.qual, self.env, self.cls = node, mod, qual, env, cls


class Cover:
    """analysis of one package"""

    def __init__(self, trees, paths):
        self.trees, self.paths = trees, paths
        self.index = {}         # (mod, name) -> Fn ; (mod, cls, name) -> Fn
        self.imports = {}
        self.problems = []      # (fn qual, mod, line, text, alloc line)
        self.allocs = []        # (fn, line, verdict)
        self.called = set()
        self.fns = []
        for mod, t in trees.items():
            imp = {}
            for n in ast.walk(t):
                if isinstance(n, ast.ImportFrom):
                    base = n.module or ''
                    if n.level:
                        parts = mod.split('.')
                        if not self.is_pkg(mod):
                            parts = parts[:-1]
                        parts = parts[:len(parts) - n.level + 1]
                        base = '.'.join(parts + ([n.module] if n.module else []))
                    for a in n.names:
                        imp[a.asname or a.name] = (base, a.name)
                if isinstance(n, ast.Call):
                    f = n.func
                    self.called.add(f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else '')
            self.imports[mod] = imp
            self.walk(t, mod, mod, None)

    def is_pkg(self, mod):
        return self.paths.get(mod, '').endswith('__init__.py')

    def walk(self, node, mod, qual, cls):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(n, mod, qual + '.' + n.name, None, cls)
                self.fns.append(f)
                if cls is not None:
                    self.index.setdefault((mod, cls, n.name), f)
                else:
                    self.index.setdefault((mod, n.name), f)
                self.walk(n, mod, qual + '.' + n.name, None)
            elif isinstance(n, ast.ClassDef):
                self.walk(n, mod, qual + '.' + n.name, n.name)
            else:
                self.walk(n, mod, qual, cls)

    def resolve(self, mod, name, seen=()):
        f = self.index.get((mod, name))
        if f is not None:
            return f
        i = self.imports.get(mod, {}).get(name)
        if i is not None and i not in seen and i[0] in self.trees:
            return self.resolve(i[0], i[1], seen + (i,))
        # name = njit(...)(f), functools.partial, factory calls: `name = make(x)`
        return None

    def is_alloc(self, n):
        if not isinstance(n, ast.Call):
            return False
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ALLOC:
            b = f.value
            while isinstance(b, ast.Attribute):
                b = b.value
            if f.attr == 'ndarray' and not (isinstance(f.value, ast.Name) and f.value.id in ('np', 'numpy')):
                return False
            return isinstance(b, (ast.Name, ast.Call))
        if isinstance(f, ast.Name):
            return f.id in ALLOC - {'ndarray'}
        return False

    def run(self):
        for f in self.fns:
            if f.mod.startswith('tslearn.backend'):
                continue
            own = [n for n in own_nodes(f.node) if self.is_alloc(n)]
            if own:
                Walk(self, f).top()


def own_nodes(fn):
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            st.extend(ast.iter_child_nodes(n))
        else:
            st.extend(getattr(n, 'decorator_list', []))


def has_alloc(c, fn):
    return any(c.is_alloc(n) for n in own_nodes(fn))


class State:
    """env: name -> value; cov: array id -> list of boxes"""

    def __init__(self, env, cov):
        self.env, self.cov = env, cov

    def copy(self):
        return State(dict(self.env), {k: list(v) for k, v in self.cov.items()})


def meet_cov(a, b):
    r = {}
    for k in set(a) | set(b):
        if k not in a:
            r[k] = b[k]         # not allocated on the other path
        elif k not in b:
            r[k] = a[k]
        else:
            kb = {x.key() for x in b[k]}
            ka = {x.key() for x in a[k]}
            r[k] = [x for x in a[k] if x.key() in kb or ('any',) in kb] + [x for x in b[k] if x.key() not in ka and ('any',) in ka]
    return r


ver = itertools.count(1)


class Walk:
    def __init__(self, c, fn, depth=0, check=True):
        self.c, self.fn, self.depth = c, fn, depth
        self.check = check
        self.arrs = {}
        self.facts = []
        self.rets = []
        self.report = []
        self.loops = []
        self.nonempty = False

    # ------------------------------------------------------------- driver
    def top(self):
        env = {}
        for a in all_args(self.fn.node):
            env[a] = ('obj', a)
        st = State(env, {})
        try:
            self.block(self.fn.node.body, st)
        except RecursionError:
            pass
        bad = {}
        for arr, line, what in self.report:
            bad.setdefault(arr.id, []).append((line, what))
        for a in list(self.arrs.values()):
            if a.fn is self.fn:
                self.c.allocs.append((self.fn, a.node.lineno, not bad.get(a.id)))
            if bad.get(a.id):
                line, what = bad[a.id][0]
                self.c.problems.append((self.fn, a, line, what))

    # ---------------------------------------------------------- expressions
    def poly(self, e, st):
        """size / index expression as polynomial over canonical symbols"""
        if isinstance(e, ast.Constant):
            return pc(e.value) if type(e.value) is int else None
        if isinstance(e, ast.Name):
            v = st.env.get(e.id)
            if v is None:
                return ps(e.id)
            if v[0] == 'poly':
                return v[1]
            if v[0] == 'obj':
                return ps(v[1])
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            p = self.poly(e.operand, st)
            return None if p is None else padd({}, p, -1)
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, (ast.Add, ast.Sub)):
                return padd(self.poly(e.left, st), self.poly(e.right, st), 1 if isinstance(e.op, ast.Add) else -1)
            if isinstance(e.op, ast.Mult):
                return pmul(self.poly(e.left, st), self.poly(e.right, st))
            return ps('<%s>' % self.canon(e, st))
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id == 'int' and len(e.args) == 1:
                return self.poly(e.args[0], st)
            if isinstance(f, ast.Name) and f.id == 'len' and len(e.args) == 1:
                return self.dimof(e.args[0], 0, st)
            if isinstance(f, ast.Attribute) and f.attr == 'size' and not e.keywords and len(e.args) == 1:
                k = self.poly(e.args[0], st)
                if isconst(k) and k is not None:
                    return self.dimof(f.value, cval(k), st)
            return ps('<%s>' % self.canon(e, st))
        if isinstance(e, ast.Subscript):
            b = e.value
            k = self.poly(e.slice, st)
            if isconst(k):
                if isinstance(b, ast.Attribute) and b.attr == 'shape':
                    return self.dimof(b.value, cval(k), st)
                if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr == 'shape' and b.args:
                    return self.dimof(b.args[0], cval(k), st)
                v = self.val(b, st)
                if v is not None and v[0] == 'shape':
                    return self.shapedim(v, cval(k))
                if v is not None and v[0] == 'tup' and -len(v[1]) <= cval(k) < len(v[1]):
                    w = v[1][cval(k)]
                    return w[1] if w is not None and w[0] == 'poly' else ps(w[1]) if w is not None and w[0] == 'obj' else None
            return ps('<%s>' % self.canon(e, st))
        if isinstance(e, ast.Attribute):
            return ps('<%s>' % self.canon(e, st))
        return None

    def canon(self, e, st):
        """text with local names replaced by what they stand for"""
        class R(ast.NodeTransformer):
            def visit_Name(s, n):
                v = st.env.get(n.id)
                if v is None:
                    return n
                if v[0] in ('obj',):
                    return ast.Name(id=str(v[1]), ctx=ast.Load())
                if v[0] == 'poly':
                    return ast.Name(id='(%s)' % ptext(v[1]), ctx=ast.Load())
                return n
        try:
            import copy
            return ast.unparse(R().visit(copy.deepcopy(e)))
        except Exception:
            return '?%d' % next(ver)

    def shapedim(self, v, k):
        if v[1] == 'arr':
            a = v[2]
            if k < 0:
                if a.rank is None:
                    return None
                k += a.rank
            return a.dim(k)
        return ps('%s.dim%d' % (v[2], k))

    def dimof(self, e, k, st):
        v = self.val(e, st)
        if v is not None and v[0] == 'arr':
            return self.shapedim(('shape', 'arr', self.arrs[v[1]]), k)
        if v is not None and v[0] == 'tup' and k == 0:
            return pc(len(v[1]))
        if v is not None and v[0] == 'obj':
            return ps('%s.dim%d' % (v[1], k))
        if v is not None and v[0] == 'range' and k == 0:
            return padd(v[2], v[1], -1)
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and not isinstance(e.slice, (ast.Slice, ast.Tuple)):
            w = self.val(e.value, st)
            i = self.poly(e.slice, st)
            if w is not None and w[0] == 'obj' and i is not None:      # an element of a stacked array: its sizes are the trailing ones
                return ps('%s.dim%d' % (w[1], k + 1))
        return ps('%s.dim%d' % (self.canon(e, st), k))

    def val(self, e, st):
        """('arr', id) | ('poly', p) | ('obj', sym) | ('tup', [..]) | ('shape', ..) | ('fn', Fn) | ('range', lo, hi, step) | None"""
        if isinstance(e, ast.Name):
            return st.env.get(e.id)
        if isinstance(e, ast.Attribute):
            k = attr_key(e)
            if k is not None and k in st.env:
                return st.env[k]
            if e.attr == 'shape':
                v = self.val(e.value, st)
                if v is not None and v[0] == 'arr':
                    return ('shape', 'arr', self.arrs[v[1]])
                if v is not None and v[0] == 'obj':
                    return ('shape', 'obj', v[1])
                return ('shape', 'obj', self.canon(e.value, st))
            return ('obj', self.canon(e, st))
        if isinstance(e, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return None
            return ('tup', [self.val(x, st) for x in e.elts])
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr == 'shape' and len(e.args) == 1:
                v = self.val(e.args[0], st)
                if v is not None and v[0] == 'arr':
                    return ('shape', 'arr', self.arrs[v[1]])
                return ('shape', 'obj', v[1] if v is not None and v[0] == 'obj' else self.canon(e.args[0], st))
            if isinstance(f, ast.Name) and f.id in LOOPFNS or isinstance(f, ast.Attribute) and f.attr in LOOPFNS:
                r = self.rng(e, st)
                if r is not None:
                    return ('range',) + r
        if isinstance(e, ast.IfExp):
            t = self.static(e.test, st)
            if t is not None:
                return self.val(e.body if t else e.orelse, st)
            a, b = self.val(e.body, st), self.val(e.orelse, st)
            return a if a == b else None
        p = self.poly(e, st)
        return ('poly', p) if p is not None else None

    def rng(self, e, st):
        a = [self.poly(x, st) for x in e.args]
        if any(x is None for x in a) or e.keywords or not a:
            return None
        if len(a) == 1:
            return pc(0), a[0], pc(1)
        return a[0], a[1], a[2] if len(a) > 2 else pc(1)

    # ---------------------------------------------------------------- facts
    def prove(self, p):
        """p >= 0 from the facts"""
        if p is None:
            return False
        if isconst(p):
            return cval(p) >= 0
        fs = self.facts
        for f in fs:
            d = padd(p, f, -1)
            if isconst(d) and cval(d) >= 0:
                return True
        # sizes are not negative
        if all(x >= 0 for x in p.values()) and all(self.size(s) for s in syms(p)):
            return True
        for f in fs:
            d = padd(p, f, -1)
            for h in fs:
                e = padd(d, h, -1)
                if isconst(e) and cval(e) >= 0:
                    return True
            if len(d) <= 2 and all(x >= 0 for x in d.values()) and all(self.size(s) for s in syms(d)):
                return True
        return False

    def size(self, s):
        return isinstance(s, str) and '.dim' in s

    def eq(self, a, b):
        return a is not None and b is not None and not padd(a, b, -1)

    def guard(self, test, st, pos=True):
        """facts of a test that holds (pos) or does not"""
        out = []
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.guard(test.operand, st, not pos)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and pos or isinstance(test.op, ast.Or) and not pos:
                for x in test.values:
                    out += self.guard(x, st, pos)
            return out
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, r = self.poly(test.left, st), self.poly(test.comparators[0], st)
            if l is None or r is None:
                return out
            op = type(test.ops[0])
            if not pos:
                op = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(op, op)
            d = padd(r, l, -1)
            if op is ast.Lt:
                out.append(padd(d, pc(1), -1))
            elif op is ast.LtE:
                out.append(d)
            elif op is ast.Gt:
                out.append(padd(padd({}, d, -1), pc(1), -1))
            elif op is ast.GtE:
                out.append(padd({}, d, -1))
            elif op is ast.Eq:
                out += [d, padd({}, d, -1)]
            elif op is ast.NotEq:
                if self.prove(d):
                    out.append(padd(d, pc(1), -1))
                n = padd({}, d, -1)
                if self.prove(n):
                    out.append(padd(n, pc(1), -1))
        return out

    # ---------------------------------------------------------------- boxes
    def region(self, arr, sl, st):
        """box of the subscript sl, or None (unknown)"""
        els = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
        els = [x for x in els if not (isinstance(x, ast.Constant) and x.value is None or isinstance(x, ast.Attribute) and x.attr == 'newaxis')]
        if any(isinstance(x, ast.Constant) and x.value is Ellipsis for x in els):
            i = [k for k, x in enumerate(els) if isinstance(x, ast.Constant) and x.value is Ellipsis][0]
            rest = len(els) - 1
            if i == len(els) - 1:
                els = els[:i]
            elif arr.rank is not None:
                els = els[:i] + [ast.Slice()] * (arr.rank - rest) + els[i + 1:]
            else:
                return None
        iv = []
        for k, x in enumerate(els):
            d = arr.dim(k)
            if isinstance(x, ast.Slice):
                if x.step is not None and not (isinstance(x.step, ast.Constant) and x.step.value == 1):
                    return None
                lo = pc(0) if x.lower is None or is_none(x.lower) else self.poly(x.lower, st)
                hi = d if x.upper is None or is_none(x.upper) else self.poly(x.upper, st)
                if lo is None or hi is None:
                    return None
                if isconst(lo) and cval(lo) < 0:
                    lo = padd(d, lo)
                if isconst(hi) and cval(hi) < 0:
                    hi = padd(d, hi)
                iv.append(None if isconst(lo) and cval(lo) == 0 and self.eq(hi, d) else (lo, hi))
            else:
                v = self.val(x, st)
                p = self.poly(x, st)
                if isinstance(x, (ast.Compare, ast.List, ast.Tuple)) or isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Invert) or p is None:
                    return None
                if v is not None and v[0] not in ('poly',) and not (v[0] == 'obj' and isinstance(x, ast.Name) and x.id in self.loopnames()):
                    if not isinstance(x, ast.Attribute):
                        return None
                if any(s.startswith('<') for s in syms(p) if isinstance(s, str)) and not isinstance(x, (ast.Attribute, ast.BinOp, ast.Name)):
                    return None
                if isconst(p) and cval(p) < 0:
                    p = padd(d, p)
                iv.append((p, padd(p, pc(1))))
        return Box(iv)

    def loopnames(self):
        return {n for l in self.loops for n in l[0]}

    def covers_all(self, arr, boxes):
        boxes = self.merged(arr, boxes)
        for b in boxes:
            if b.tri is None and all(i is None or self.whole(arr, k, i) for k, i in enumerate(b.iv)) and self.excl_ok(b, arr, boxes):
                return True
        tri = {}
        for b in boxes:
            if b.tri is not None and all(i is None or self.whole(arr, k, i) for k, i in enumerate(b.iv)):
                tri.setdefault(b.tri[:2], set()).update(b.tri[2])
        return any({'lt', 'eq', 'gt'} <= t for t in tri.values())

    def whole(self, arr, k, i):
        lo, hi = i
        return self.prove(padd({}, lo, -1)) and (self.prove(padd(hi, arr.dim(k), -1)))

    def excl_ok(self, b, arr, boxes):
        for pt in b.excl:
            iv = tuple(None if p is None else (p, padd(p, pc(1))) for p in pt)
            if not any(o is not b and o.tri is None and not o.excl and self.inside(iv, o, arr) for o in boxes):
                return False
        return True

    def inside(self, iv, b, arr):
        for k in range(max(len(iv), len(b.iv))):
            bi = b.iv[k] if k < len(b.iv) else None
            if bi is None:
                continue
            ri = iv[k] if k < len(iv) else None
            if ri is None:
                if not self.whole(arr, k, bi):
                    return False
                continue
            if not (self.prove(padd(ri[0], bi[0], -1)) and self.prove(padd(bi[1], ri[1], -1))):
                return False
        return True

    def merged(self, arr, boxes):
        bs = []
        seen = set()
        for b in boxes:
            if b.key() not in seen:
                seen.add(b.key())
                bs.append(b)
        for _ in range(4):
            new = []
            for a, b in itertools.permutations([x for x in bs if x.tri is None][:14], 2):
                n = max(len(a.iv), len(b.iv))
                ai = list(a.iv) + [None] * (n - len(a.iv))
                bi = list(b.iv) + [None] * (n - len(b.iv))
                diff = [k for k in range(n) if not self.same(arr, k, ai[k], bi[k])]
                if len(diff) != 1:
                    continue
                k = diff[0]
                if ai[k] is None or bi[k] is None:
                    continue
                (l1, h1), (l2, h2) = ai[k], bi[k]
                # a then b, touching
                if self.prove(padd(h1, l2, -1)) and self.prove(padd(l2, l1, -1)) and self.prove(padd(h2, h1, -1)):
                    iv = list(ai)
                    iv[k] = (l1, h2)
                    nb = Box(iv, a.excl + b.excl)
                    if nb.key() not in seen:
                        seen.add(nb.key())
                        new.append(nb)
            if not new:
                break
            bs += new
        return bs

    def same(self, arr, k, a, b):
        if a is None and b is None:
            return True
        if a is None or b is None:
            return self.whole(arr, k, a or b)
        return self.eq(a[0], b[0]) and self.eq(a[1], b[1])

    # ---------------------------------------------------------- obligations
    def need(self, aid, box, st, node, what):
        """the cells of box (None: all) of the array are read or escape here"""
        if not self.check:
            return
        arr = self.arrs[aid]
        boxes = st.cov.get(aid)
        if boxes is None or any(b.key() == ('any',) for b in boxes):
            return
        boxes = list(boxes)
        for l in self.loops:
            boxes += l[1].get(aid, [])
        if self.covers_all(arr, boxes):
            return
        if box is not None:
            m = self.merged(arr, boxes)
            for b in m:
                if b.tri is None and self.inside(box.iv, b, arr) and self.excl_ok(b, arr, m):
                    return
                if b.tri is not None and box.tri is None and self.in_tri(box, b):
                    return
        self.report.append((arr, getattr(node, 'lineno', 0), what))
        st.cov[aid] = [ANY]

    def in_tri(self, box, b):
        i, j, kinds = b.tri
        if len(box.iv) <= max(i, j) or box.iv[i] is None or box.iv[j] is None:
            return False
        d = padd(box.iv[i][0], box.iv[j][0], -1)      # row - column
        if 'lt' in kinds and self.prove(padd(d, pc(1), -1)):
            return True
        if 'gt' in kinds and self.prove(padd(padd({}, d, -1), pc(1), -1)):
            return True
        return 'eq' in kinds and not d

    # ------------------------------------------------------------- reading
    def read(self, e, st):
        """evaluate e: every use of a tracked array is checked"""
        if e is None:
            return
        if isinstance(e, (ast.Name, ast.Attribute)):
            v = self.val(e, st) if isinstance(e, ast.Name) or attr_key(e) in st.env else None
            if v is not None and v[0] == 'arr':
                self.need(v[1], None, st, e, 'used')
                return
            if v is not None and v[0] == 'tup':
                self.use_val(v, st, e)
                return
            if isinstance(e, ast.Attribute):
                if e.attr in HARMLESS:
                    w = self.val(e.value, st) if isinstance(e.value, (ast.Name, ast.Attribute)) else None
                    if w is not None and w[0] == 'arr':
                        return
                self.read(e.value, st)
            return
        if isinstance(e, ast.Subscript):
            b = e.value
            v = self.val(b, st) if isinstance(b, ast.Name) or isinstance(b, ast.Attribute) and attr_key(b) in st.env else None
            if v is not None and v[0] == 'arr':
                self.need(v[1], self.region(self.arrs[v[1]], e.slice, st), st, e, 'read')
            else:
                self.read(b, st)
            self.read(e.slice, st)
            return
        if isinstance(e, ast.Call):
            self.call(e, st)
            return
        if isinstance(e, ast.IfExp):
            t = self.static(e.test, st)
            self.read(e.test, st)
            for pos, x in ((True, e.body), (False, e.orelse)):
                if t is None or t == pos:
                    n = len(self.facts)
                    self.facts += self.guard(e.test, st, pos)
                    self.read(x, st)
                    del self.facts[n:]
            return
        if isinstance(e, ast.BoolOp):
            n = len(self.facts)
            for x in e.values:
                self.read(x, st)
                self.facts += self.guard(x, st, isinstance(e.op, ast.And))
            del self.facts[n:]
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            s2 = State(dict(st.env), st.cov)
            for g in e.generators:
                self.read(g.iter, st)
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        s2.env[n.id] = ('obj', '%s#%d' % (n.id, next(ver)))
                for x in g.ifs:
                    self.read(x, s2)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.read(x, s2)
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, ast.NamedExpr):
            self.read(e.value, st)
            self.bind(e.target, self.evalv(e.value, st), st)
            return
        if isinstance(e, ast.Constant):
            return
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.read(x, st)
            elif isinstance(x, ast.keyword):
                self.read(x.value, st)

    def use_val(self, v, st, node):
        if v is None:
            return
        if v[0] == 'arr':
            self.need(v[1], None, st, node, 'used')
        elif v[0] == 'tup':
            for x in v[1]:
                self.use_val(x, st, node)

    def arg_arr(self, x, st):
        """(array id, box) when the argument is a tracked array or a part of it"""
        if isinstance(x, ast.Starred):
            return None
        if isinstance(x, (ast.Name, ast.Attribute)):
            v = self.val(x, st) if isinstance(x, ast.Name) or attr_key(x) in st.env else None
            if v is not None and v[0] == 'arr':
                return v[1], None
        if isinstance(x, ast.Subscript) and isinstance(x.value, (ast.Name, ast.Attribute)):
            v = self.val(x.value, st) if isinstance(x.value, ast.Name) or attr_key(x.value) in st.env else None
            if v is not None and v[0] == 'arr':
                b = self.region(self.arrs[v[1]], x.slice, st)
                return v[1], b if b is not None else 'unknown'
        return None

    def unfinished(self, a, st):
        aid, box = a
        arr = self.arrs[aid]
        boxes = list(st.cov.get(aid, [ANY]))
        for l in self.loops:
            boxes += l[1].get(aid, [])
        if any(b.key() == ('any',) for b in boxes) or self.covers_all(arr, boxes):
            return False
        if isinstance(box, Box):
            m = self.merged(arr, boxes)
            return not any(b.tri is None and self.inside(box.iv, b, arr) and self.excl_ok(b, arr, m) for b in m)
        return True

    def target(self, e, st):
        """the program function a call runs, and whether it is bound"""
        f = e.func
        if isinstance(f, ast.Name):
            v = st.env.get(f.id)
            if v is not None and v[0] == 'fn':
                return v[1], False
            if v is not None and v[0] != 'obj':
                return None, False
            if v is None or v[1] == f.id:
                g = self.c.resolve(self.fn.mod, f.id)
                if g is None:
                    g = self.factory(f.id)
                return g, False
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            if f.value.id in ('self', 'cls') and self.fn.cls is not None:
                g = self.c.index.get((self.fn.mod, self.fn.cls, f.attr))
                static = g is not None and any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in g.node.decorator_list)
                return g, not static
            g = self.c.index.get((self.fn.mod, f.value.id, f.attr))
            if g is not None:
                return g, False
        return None, False

    def factory(self, name):
        """name = make(...) where make defines one inner function and returns it (possibly wrapped)"""
        mods = [(self.fn.mod, name)]
        i = self.c.imports.get(self.fn.mod, {}).get(name)
        if i is not None:
            mods.append(i)
        for mod, nm in mods:
            t = self.c.trees.get(mod)
            for n in ast.walk(t) if t is not None else ():
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == nm and \
                        isinstance(n.value, ast.Call):
                    fs = [n.value.func] + list(n.value.args)
                    for x in fs:
                        while isinstance(x, ast.Call):
                            x = x.func
                        if isinstance(x, ast.Name):
                            g = self.c.index.get((mod, x.id))
                            if g is not None:
                                inner = [m for m in g.node.body if isinstance(m, ast.FunctionDef)]
                                if len(inner) == 1:
                                    return Fn(inner[0], mod, g.qual + '.' + inner[0].name)
                                if n.value.func is not x:
                                    return g
        return None

    def call(self, e, st):
        f = e.func
        # methods of the array itself
        if isinstance(f, ast.Attribute):
            a = self.arg_arr(f.value, st)
            if a is not None:
                if f.attr in ('fill', 'fill_', 'zero_', 'copy_', 'normal_', 'uniform_'):
                    for x in e.args:
                        self.read(x, st)
                    self.write(a[0], a[1], st)
                    return
                if f.attr in ('size', 'dim', 'numel'):
                    return
                self.need(a[0], a[1] if isinstance(a[1], Box) else None, st, e, 'used')
        if isinstance(f, ast.Name) and f.id == 'len' or isinstance(f, ast.Attribute) and f.attr in ('shape', 'ndim', 'size') and e.args:
            if self.arg_arr(e.args[0], st) is not None:
                return
        args = [(None, x) for x in e.args] + [(k.arg, k.value) for k in e.keywords]
        live = [(k, x, self.arg_arr(x, st)) for k, x in args]
        open_ = [(k, x, a) for k, x, a in live if a is not None and self.unfinished(a, st)]
        g, bound = self.target(e, st)
        inner = g is not None and g.node is not self.fn.node and self.depth < 4 and (open_ or has_alloc(self.c, g.node))
        if inner and not any(isinstance(x, ast.Starred) for x in e.args) and not any(k.arg is None for k in e.keywords):
            for k, x, a in live:
                if a is None:
                    self.read(x, st)
            r = self.inline(g, bound, e, st)
            if r is not False:
                e._ret = r
                return
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
        for k, x, a in live:
            if a is None:
                self.read(x, st)
            elif k == 'out' and g is None or name == 'copyto' and x is e.args[0]:
                continue
            else:
                self.need(a[0], a[1] if isinstance(a[1], Box) else None, st, x, 'handed over')
        for k, x, a in live:
            if a is not None and (k == 'out' and g is None or name == 'copyto' and x is e.args[0]):
                self.write(a[0], a[1], st)
        if not isinstance(f, ast.Name):
            if not (isinstance(f, ast.Attribute) and self.arg_arr(f.value, st) is not None):
                self.read(f, st) if not isinstance(f, ast.Attribute) else self.read(f.value, st)

    def inline(self, g, bound, e, st):
        """follow the call with the caller's sizes and arrays; False when not possible"""
        names = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
        env = dict(g.env or {})
        if bound:
            if not names:
                return False
            env[names[0]] = ('obj', 'self')
            names = names[1:]
        if len(e.args) > len(names) or g.node.args.vararg or g.node.args.kwarg:
            return False
        w = Walk(self.c, g, self.depth + 1, self.check)
        w.arrs = self.arrs
        w.report = self.report
        w.facts = list(self.facts)
        w.loops = self.loops
        part = {}
        actual = dict(zip(names, e.args))
        for k in e.keywords:
            actual[k.arg] = k.value
        ds = dict(zip([a.arg for a in g.node.args.args][-len(g.node.args.defaults):] if g.node.args.defaults else [], g.node.args.defaults))
        ds.update({a.arg: d for a, d in zip(g.node.args.kwonlyargs, g.node.args.kw_defaults) if d is not None})
        for n in all_args(g.node):
            if n in actual:
                a = self.arg_arr(actual[n], st)
                if a is not None and a[1] is not None:
                    arr = self.arrs[a[0]]
                    sub = Arr(None, arr.node, arr.fn, None)
                    self.arrs[sub.id] = sub
                    env[n] = ('arr', sub.id)
                    part[n] = (sub, a)
                else:
                    env[n] = self.evalv(actual[n], st, True) or ('obj', self.canon(actual[n], st))
                if is_none(actual[n]):
                    env[n] = ('none',)
            elif n in ds:
                env[n] = ('none',) if is_none(ds[n]) else self.val(ds[n], State({}, {})) or ('obj', '%s.%s' % (g.qual, n))
            elif n not in env:
                env[n] = ('obj', '%s.%s' % (g.qual, n))
        cov = {k: list(v) for k, v in st.cov.items()}
        for sub, a in part.values():
            cov[sub.id] = [] if self.unfinished(a, st) else [ANY]
        s2 = State(env, cov)
        out = w.block(g.node.body, s2)
        ends = [(x, None) for x in ([out] if out is not None else [])] + w.rets
        if not ends:
            return None
        cov = None
        ret = ends[0][1]
        for s, r in ends:
            cov = s.cov if cov is None else meet_cov(cov, s.cov)
            ret = ret if ret == r else None
        for sub, a in part.values():
            full = any(b.key() == ('any',) for b in cov.get(sub.id, [])) or self.covers_all(sub, cov.get(sub.id, []))
            if full:
                cov = dict(cov)
                cov[a[0]] = cov.get(a[0], []) + ([a[1]] if isinstance(a[1], Box) else [])
            cov.pop(sub.id, None)
        st.cov = cov
        return ret

    # ------------------------------------------------------------- writing
    def write(self, aid, box, st):
        if aid not in st.cov:
            return
        if box is None:
            st.cov[aid] = st.cov[aid] + [Box([])]
        elif isinstance(box, Box):
            st.cov[aid] = st.cov[aid] + [box]

    def evalv(self, e, st, args=False):
        """value of an expression after it was read"""
        if self.c.is_alloc(e):
            return self.alloc(e, st)
        if isinstance(e, ast.Call):
            r = getattr(e, '_ret', None)
            if r is not None:
                return r
            p = self.val(e, st)
            return p if p is not None and p[0] in ('shape', 'range', 'poly') else None
        return self.val(e, st)

    def alloc(self, e, st):
        f = e.func
        args = list(e.args)
        kw = {k.arg: k.value for k in e.keywords}
        dt = kw.get('dtype')
        if dt is not None and isinstance(dt, ast.Name) and dt.id == 'object':
            return None
        dims, rank, src = None, None, None
        if f.attr == 'empty_like' if isinstance(f, ast.Attribute) else f.id == 'empty_like':
            v = self.val(args[0], st) if args else None
            if v is not None and v[0] == 'arr':
                a = self.arrs[v[1]]
                dims, rank, src = a.dims, a.rank, a.src or 'arr%d' % a.id
            else:
                src = v[1] if v is not None and v[0] == 'obj' else self.canon(args[0], st) if args else None
        else:
            s = kw.get('shape', kw.get('size', args[0] if args else None))
            torchy = len(args) > 1 and not isinstance(args[0], (ast.Tuple, ast.List)) and self.poly(args[1], st) is not None and \
                isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'torch'
            if torchy:
                s = ast.Tuple(elts=args, ctx=ast.Load())
            if isinstance(s, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in s.elts):
                dims = [self.poly(x, st) for x in s.elts]
            elif s is not None:
                v = self.val(s, st)
                if v is not None and v[0] == 'tup':
                    dims = [x[1] if x is not None and x[0] == 'poly' else ps(x[1]) if x is not None and x[0] == 'obj' else None for x in v[1]]
                elif v is not None and v[0] == 'shape':
                    if v[1] == 'arr':
                        dims, rank, src = v[2].dims, v[2].rank, v[2].src or 'arr%d' % v[2].id
                    else:
                        src = v[2]
                else:
                    p = self.poly(s, st)
                    dims = [p]
            if dims is not None:
                rank = len(dims)
                if any(d is not None and isconst(d) and cval(d) == 0 for d in dims):
                    return None
                dims = [d if d is not None else ps('?%d' % next(ver)) for d in dims]
        a = Arr(dims, e, self.fn, rank, src)
        self.arrs[a.id] = a
        st.cov[a.id] = []
        return ('arr', a.id)

    def bind(self, t, v, st, node=None):
        if isinstance(t, ast.Name):
            st.env[t.id] = v if v is not None else ('obj', '%s#%d' % (t.id, next(ver)))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, None, st)
                    continue
                w = None
                if v is not None and v[0] == 'tup' and len(v[1]) == len(t.elts):
                    w = v[1][k]
                elif v is not None and v[0] == 'shape':
                    if v[1] == 'arr' and v[2].rank is None and v[2].src is None and v[2].dims is None:
                        v[2].rank = len(t.elts)
                    p = self.shapedim(v, k)
                    w = ('poly', p) if p is not None else None
                self.bind(x, w, st)
        elif isinstance(t, ast.Attribute):
            self.read(t.value, st)
            k = attr_key(t)
            if k is not None:
                for n in [x for x in st.env if isinstance(x, str) and (x == k or x.startswith(k + '.'))]:
                    del st.env[n]
                st.env[k] = v if v is not None and v[0] in ('arr', 'poly', 'obj', 'shape') else ('obj', '%s#%d' % (k, next(ver)))
            else:
                self.use_val(v, st, t)
        elif isinstance(t, ast.Subscript):
            a = self.arg_arr(t, st)
            if a is not None and isinstance(a[1], Box):
                self.read(t.slice, st)
                self.write(a[0], a[1], st)
            elif a is not None:
                self.read(t.slice, st)
                self.mask_write(a[0], t.slice, st)
            else:
                self.read(t.value, st) if not isinstance(t.value, (ast.Name, ast.Attribute)) else None
                self.read(t.slice, st)
                if isinstance(t.value, ast.Subscript):
                    # A[i][j] = v
                    b = self.arg_arr(t.value, st)
                self.use_val(v, st, t)

    def mask_write(self, aid, sl, st):
        """A[mask] = ..; A[~mask] = .. together cover the array"""
        inv = isinstance(sl, ast.UnaryOp) and isinstance(sl.op, ast.Invert)
        key = self.canon(sl.operand if inv else sl, st)
        if isinstance(sl, ast.Call) and isinstance(sl.func, ast.Attribute) and sl.func.attr == 'logical_not' and sl.args:
            inv, key = True, self.canon(sl.args[0], st)
        other = Box([], tri=('mask', key, frozenset(['no' if not inv else 'yes'])))
        if any(b.key() == other.key() for b in st.cov.get(aid, [])):
            self.write(aid, None, st)
        elif aid in st.cov:
            st.cov[aid] = st.cov[aid] + [Box([], tri=('mask', key, frozenset(['yes' if not inv else 'no'])))]

    # ---------------------------------------------------------- statements
    def static(self, test, st):
        """truth of tests about None-ness and emptiness"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t = self.static(test.operand, st)
            return None if t is None else not t
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, r = test.ops[0], test.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and is_none(r):
                v = self.val(test.left, st) if isinstance(test.left, (ast.Name, ast.Attribute)) else None
                if v is not None and v[0] in ('arr', 'tup', 'shape', 'range', 'fn'):
                    return isinstance(op, ast.IsNot)
                if v == ('none',):
                    return isinstance(op, ast.Is)
            # arrays are assumed not to be empty
            if isinstance(op, (ast.NotEq, ast.Gt)) and isinstance(r, ast.Constant) and r.value == 0 and is_size(test.left):
                return True
            if isinstance(op, ast.Eq) and isinstance(r, ast.Constant) and r.value == 0 and is_size(test.left):
                return False
        if is_size(test):
            return True
        if isinstance(test, ast.Constant):
            return bool(test.value)
        return None

    def block(self, stmts, st):
        """state after the statements, None when control does not fall through"""
        for s in stmts:
            st = self.stmt(s, st)
            if st is None:
                return None
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            alias = self.alias(s.value, st)
            if not alias:
                self.read(s.value, st)
            v = self.evalv(s.value, st)
            for t in s.targets:
                self.bind(t, v, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                if not self.alias(s.value, st):
                    self.read(s.value, st)
                self.bind(s.target, self.evalv(s.value, st), st)
            return st
        if isinstance(s, ast.AugAssign):
            self.read(s.value, st)
            t = s.target
            if isinstance(t, ast.Name):
                v = st.env.get(t.id)
                if v is not None and v[0] == 'arr':
                    self.need(v[1], None, st, s, 'updated')
                else:
                    p = self.poly(ast.BinOp(left=ast.Name(id=t.id, ctx=ast.Load()), op=s.op, right=s.value), st)
                    st.env[t.id] = ('poly', p) if p is not None and isinstance(s.op, (ast.Add, ast.Sub, ast.Mult)) else ('obj', '%s#%d' % (t.id, next(ver)))
            else:
                a = self.arg_arr(t, st)
                if a is not None:
                    self.need(a[0], a[1] if isinstance(a[1], Box) else None, st, s, 'updated')
                elif isinstance(t, ast.Subscript):
                    self.read(t.value, st)
                    self.read(t.slice, st)
            return st
        if isinstance(s, ast.Expr):
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)) and s.value.value is not None:
                self.read(s.value.value, st)
            else:
                self.read(s.value, st)
            return st
        if isinstance(s, ast.Return):
            v = None
            if s.value is not None:
                if self.depth:
                    if not self.alias(s.value, st):
                        self.read(s.value, st)
                    v = self.evalv(s.value, st)
                else:
                    if self.alias(s.value, st) and self.helper():
                        pass        # a private allocator: judged where it is called
                    else:
                        self.read(s.value, st)
                        if self.c.is_alloc(s.value) and not self.helper():
                            w = self.evalv(s.value, st)
                            self.use_val(w, st, s)
            if not self.depth or True:
                self.attr_check(st, s)
            self.rets.append((st, v))
            return None
        if isinstance(s, ast.If):
            t = self.static(s.test, st)
            self.read(s.test, st)
            if t is not None:
                return self.block(s.body if t else s.orelse, st)
            n = len(self.facts)
            a, b = st.copy(), st.copy()
            self.facts += self.guard(s.test, st, True)
            self.conds.append((s.test, True))
            a = self.block(s.body, a)
            self.conds.pop()
            del self.facts[n:]
            self.facts += self.guard(s.test, st, False)
            self.conds.append((s.test, False))
            b = self.block(s.orelse, b)
            self.conds.pop()
            # facts of the branch that goes on stay until the end of the block
            if a is not None:
                del self.facts[n:]
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            return self.loop(s, st)
        if isinstance(s, ast.While):
            return self.whileloop(s, st)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.read(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, None, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            entry = st.copy()
            out = self.block(s.body, st)
            if out is not None and s.orelse:
                out = self.block(s.orelse, out)
            for h in s.handlers:
                e = entry.copy()
                if h.name:
                    e.env[h.name] = ('obj', '%s#%d' % (h.name, next(ver)))
                out = self.join(out, self.block(h.body, e))
            if s.finalbody:
                if out is None:
                    self.block(s.finalbody, entry.copy())
                    return None
                return self.block(s.finalbody, out)
            return out
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, (ast.Continue, ast.Break)):
            self.jumps.append((type(s), st, list(self.conds)))
            return None
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st.env[s.name] = ('fn', Fn(s, self.fn.mod, self.fn.qual + '.' + s.name, dict(st.env), self.fn.cls))
            return st
        if isinstance(s, ast.ClassDef):
            return st
        if isinstance(s, ast.Match):
            self.read(s.subject, st)
            out = None
            exhaustive = False
            for c in s.cases:
                x = st.copy()
                out = self.join(out, self.block(c.body, x))
                exhaustive |= isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None
            return out if exhaustive else self.join(out, st)
        if isinstance(s, ast.Assert):
            self.read(s.test, st)
            self.facts += self.guard(s.test, st, True)
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
            return st
        return st

    conds = []
    jumps = []

    def helper(self):
        n = self.fn.node.name
        return n.startswith('_') and not n.startswith('__') and n in self.c.called

    def attr_check(self, st, node):
        """arrays kept on self must be finished when the function ends"""
        if self.depth:
            return
        for k, v in st.env.items():
            if isinstance(k, str) and '.' in k and v is not None and v[0] == 'arr':
                self.need(v[1], None, st, node, 'kept on %s' % k)

    def alias(self, e, st):
        """an expression that only names arrays (no cell is read)"""
        if isinstance(e, (ast.Name, ast.Attribute)):
            v = self.val(e, st) if isinstance(e, ast.Name) or attr_key(e) in st.env else None
            return v is not None and v[0] in ('arr', 'tup')
        if isinstance(e, (ast.Tuple, ast.List)):
            return all(self.alias(x, st) or not self.mentions(x, st) for x in e.elts) and any(self.alias(x, st) for x in e.elts)
        if isinstance(e, ast.IfExp):
            t = self.static(e.test, st)
            if t is not None:
                return self.alias(e.body if t else e.orelse, st)
        if isinstance(e, ast.Call) and self.c.is_alloc(e):
            return True
        return False

    def mentions(self, e, st):
        return any(isinstance(n, ast.Name) and (st.env.get(n.id) or ('',))[0] in ('arr', 'tup') for n in ast.walk(e))

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        env = {}
        cov = meet_cov(a.cov, b.cov)
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x == y:
                env[k] = x
            elif x is not None and y is not None and x[0] == 'arr' and y[0] != 'arr' or y is not None and x is not None and y[0] == 'arr' and x[0] != 'arr':
                env[k] = x if x[0] == 'arr' else y
            elif x is None or y is None:
                env[k] = x or y
            elif x[0] == 'arr' and y[0] == 'arr':
                # two arrays under one name: unfinished ones must be finished now
                env[k] = x
                fx = self.covers_all(self.arrs[x[1]], cov.get(x[1], [ANY])) or any(q.key() == ('any',) for q in cov.get(x[1], [ANY]))
                env[k] = y if fx else x
            else:
                env[k] = ('obj', '%s#%d' % (k, next(ver)))
        return State(env, cov)

    # -------------------------------------------------------------- loops
    def loop(self, s, st):
        it = s.iter
        # unrolled: literal tuples, zip of literal tuples
        seqs = self.literal(it, st)
        if seqs is not None and len(seqs) <= 8:
            cur = st
            for v in seqs:
                self.bind(s.target, v, cur)
                oj, self.jumps = self.jumps, []
                cur = self.block(s.body, cur)
                js, self.jumps = self.jumps, oj
                if js:
                    for _, x, _ in js:
                        cur = self.join(cur, x)
                if cur is None:
                    return None
            return self.block(s.orelse, cur) if s.orelse else cur
        self.read(it, st)
        var, lo, hi, step = None, None, None, None
        names = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        v = self.val(it, st)
        if v is not None and v[0] == 'range':
            lo, hi, step = v[1:]
            var = s.target.id if isinstance(s.target, ast.Name) else None
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'reversed' and len(it.args) == 1:
            v = self.val(it.args[0], st)
            if v is not None and v[0] == 'range' and isinstance(s.target, ast.Name) and v[3] == pc(1):
                var, lo, hi, step = s.target.id, padd(v[2], pc(1), -1), padd(v[1], pc(1), -1), pc(-1)
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and it.args and \
                isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
            start = pc(0)
            if len(it.args) > 1:
                start = self.poly(it.args[1], st)
            for k in it.keywords:
                start = self.poly(k.value, st)
            inner = it.args[0]
            n = self.length(inner, st)
            if start is not None and n is not None:
                var, lo, hi, step = s.target.elts[0].id, start, padd(start, n), pc(1)
        return self.iterate(s, st, var, lo, hi, step, names, s.body, s.orelse)

    def length(self, e, st):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('zip', 'list', 'tuple', 'reversed', 'sorted', 'iter') and e.args:
            return self.length(e.args[0], st)
        return self.dimof(e, 0, st)

    def literal(self, it, st):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'zip' and it.args:
            cols = [self.literal(x, st) for x in it.args]
            if any(c is None for c in cols):
                return None
            return [('tup', list(r)) for r in zip(*cols)]
        if isinstance(it, (ast.Tuple, ast.List)):
            v = self.val(it, st)
            return v[1] if v is not None else None
        if isinstance(it, ast.Name):
            v = st.env.get(it.id)
            if v is not None and v[0] == 'tup':
                return v[1]
        return None

    def whileloop(self, s, st):
        """while v < e: ...; v += 1"""
        t = s.test
        var = None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and s.body:
            x = t.left.id
            last = s.body[-1]
            incs = [n for n in own_nodes(s) if isinstance(n, (ast.Assign, ast.AugAssign, ast.For)) and
                    any(isinstance(m, ast.Name) and m.id == x and isinstance(m.ctx, ast.Store) for m in ast.walk(n))]
            one = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == x and \
                isinstance(last.value, ast.Constant) and last.value.value == 1
            if one and incs == [last] and not any(isinstance(n, ast.Continue) for n in own_nodes(s)):
                v = st.env.get(x)
                lo = v[1] if v is not None and v[0] == 'poly' else None
                hi = self.poly(t.comparators[0], st)
                if lo is not None and hi is not None:
                    if isinstance(t.ops[0], ast.LtE):
                        hi = padd(hi, pc(1))
                    out = self.iterate(s, st, x, lo, hi, pc(1), {x}, s.body[:-1], s.orelse)
                    if out is not None:
                        out.env[x] = ('poly', hi)
                    return out
        self.read(s.test, st)
        out = self.iterate(s, st, None, None, None, None, set(), s.body, s.orelse)
        if isinstance(s.test, ast.Constant) and s.test.value is True and not any(isinstance(n, ast.Break) for n in own_nodes(s)):
            return None
        return out

    def iterate(self, s, st, var, lo, hi, step, names, body, orelse):
        stored = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - {var}
        attrs = {attr_key(n) for b in body for n in ast.walk(b) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        sym = '%s@%d' % (var, next(ver)) if var is not None else None
        down = False
        facts = []
        if var is not None:
            if isconst(step) and cval(step) == 1:
                a, b = lo, hi
            elif isconst(step) and cval(step) == -1:
                down = True
                a, b = padd(hi, pc(1)), padd(lo, pc(1))
            elif isconst(step) and cval(step) < 0:
                var = None
            else:
                a, b = lo, hi
            if var is not None:
                facts = [padd(ps(sym), a, -1), padd(padd(b, pc(1), -1), ps(sym), -1)]
        entry = st.copy()

        def one(check, earlier):
            x = entry.copy()
            for n in names | stored:
                if n in x.env and x.env[n][0] == 'arr' and n in stored and n not in names:
                    continue
                x.env[n] = ('obj', '%s#%d' % (n, next(ver)))
            for k in attrs:
                if k in x.env and x.env[k][0] != 'arr':
                    x.env[k] = ('obj', '%s#%d' % (k, next(ver)))
            if var is not None:
                x.env[var] = ('poly', ps(sym))
            self.bind_targets(s, x, var, sym)
            oc, self.check = self.check, check and self.check
            oj, self.jumps = self.jumps, []
            ocs, self.conds = self.conds, []
            nf = len(self.facts)
            self.facts += facts
            self.loops.append(({var} if var else set(), earlier))
            rets = len(self.rets)
            out = self.block(body, x)
            if not check:
                del self.rets[rets:]
            self.loops.pop()
            del self.facts[nf:]
            js, self.jumps, self.conds, self.check = self.jumps, oj, ocs, oc
            return out, js
        # what one iteration writes for certain
        arrs0 = dict(self.arrs)
        nrep = len(self.report)
        out, js = one(False, {})
        base = {k: {b.key() for b in v} for k, v in entry.cov.items()}

        def written(out, js):
            ends = ([('end', out.cov)] if out is not None else [])
            excl = []
            brk = []
            for kind, x, conds in js:
                if kind is ast.Break:
                    brk.append(x)
                    continue
                pt = self.point(conds, x)
                if pt is not None and out is not None:
                    excl.append(pt)
                else:
                    ends.append(('cont', x.cov))
            if not ends:
                return {}, brk
            cov = ends[0][1]
            for _, c in ends[1:]:
                cov = meet_cov(cov, c)
            r = {}
            for k, v in cov.items():
                if k not in base:
                    continue
                new = [b for b in v if b.key() not in base[k]]
                if excl:
                    new = [Box(b.iv, b.excl + tuple(self.at(b, p) for p in excl), b.tri) if b.tri is None else b for b in new]
                r[k] = new
            return r, brk
        w, brk = written(out, js)
        early = {}
        if var is not None and isconst(step) and abs(cval(step)) == 1:
            for k, v in w.items():
                bs = []
                for b in v:
                    g = self.general(b, sym, padd(ps(sym), pc(1)), hi_excl(b, lo, pc(1)) if down else None, self.arrs[k]) if down else \
                        self.general(b, sym, lo, ps(sym), self.arrs[k])
                    if g is not None:
                        bs.append(g)
                early[k] = bs
        out, js = one(True, early)
        for k in [k for k in self.arrs if k not in arrs0]:
            pass
        w, brk = written(out, js)
        # after the loop
        end = entry.copy()
        for n in names | stored:
            if n in end.env and end.env[n] is not None and end.env[n][0] == 'arr' and n not in names:
                continue
            o = out.env.get(n) if out is not None else None
            end.env[n] = o if o is not None and o[0] == 'arr' and o[1] in end.cov else ('obj', '%s#%d' % (n, next(ver)))
            if o is not None and o[0] == 'arr' and o[1] not in end.cov:
                end.env[n] = o
                end.cov[o[1]] = out.cov.get(o[1], [])
        for k in attrs:
            if k in end.env and end.env[k][0] != 'arr':
                end.env[k] = ('obj', '%s#%d' % (k, next(ver)))
        nonempty = var is not None and self.prove(padd(padd(b, a, -1), pc(1), -1))
        if not brk:
            for k, v in w.items():
                for b_ in v:
                    if var is not None and sym in self.box_syms(b_):
                        if isconst(step) and abs(cval(step)) == 1:
                            g = self.general(b_, sym, a, b, self.arrs[k])
                        else:
                            g = self.blocks(b_, sym, a, b, step)
                        if g is not None:
                            end.cov[k] = end.cov.get(k, []) + [g]
                    elif nonempty and not any('@' in str(x) and str(x) == str(sym) for x in self.box_syms(b_)):
                        end.cov[k] = end.cov.get(k, []) + [b_]
                    elif var is not None and b_.tri is None:
                        # written in every iteration; nothing is read when there is none, unless the array outlives an empty loop
                        pass
        elif nonempty or True:
            pass
        for x in brk:
            pass
        if orelse:
            return self.block(orelse, end)
        return end

    def bind_targets(self, s, x, var, sym):
        """elements of the iterated arrays: their sizes are trailing sizes"""
        if not isinstance(s, ast.For):
            return
        it, t = s.iter, s.target
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and isinstance(t, ast.Tuple) and len(t.elts) == 2:
            it, t = it.args[0], t.elts[1]
        if isinstance(t, ast.Name) and t.id != var:
            x.env[t.id] = ('obj', '%s#%d' % (t.id, next(ver)))

    def box_syms(self, b):
        r = set()
        for i in b.iv:
            if i is not None:
                r |= syms(i[0]) | syms(i[1])
        return r

    def general(self, b, sym, lo, hi, arr):
        """union of the box over lo <= sym < hi (step 1)"""
        if b.tri is not None:
            return None
        ks = [k for k, i in enumerate(b.iv) if i is not None and (sym in syms(i[0]) or sym in syms(i[1]))]
        if not ks:
            return b
        if len(ks) == 1:
            k = ks[0]
            l, h = linear(b.iv[k][0], sym), linear(b.iv[k][1], sym)
            if l is None or h is None:
                return None
            w = padd(b.iv[k][1], b.iv[k][0], -1)
            iv = list(b.iv)
            if l[0] and h[0] and self.eq(l[0], h[0]) and (self.prove(padd(w, l[0], -1))) and sym not in syms(w):
                # a*s + c .. a*s + c + w with w >= a (> 0)
                if isconst(l[0]) and cval(l[0]) < 0:
                    return None
                iv[k] = (psub(b.iv[k][0], sym, lo), padd(psub(b.iv[k][0], sym, padd(hi, pc(1), -1)), w))
                return Box(iv, b.excl)
            if isconst(l[0]) and cval(l[0]) == -1 and self.eq(l[0], h[0]) and self.eq(w, pc(1)):
                # c - s
                iv[k] = (psub(b.iv[k][0], sym, padd(hi, pc(1), -1)), padd(psub(b.iv[k][0], sym, lo), pc(1)))
                return Box(iv, b.excl)
            if not l[0] and isconst(h[0]) and cval(h[0]) > 0:
                iv[k] = (b.iv[k][0], psub(b.iv[k][1], sym, padd(hi, pc(1), -1)))
                return Box(iv, b.excl) if self.prove(padd(padd(hi, lo, -1), pc(1), -1)) else None
            return None
        if len(ks) == 2 and not b.excl:
            i, j = ks
            for r, c in ((i, j), (j, i)):
                ri, ci = b.iv[r], b.iv[c]
                if not (self.eq(ri[0], ps(sym)) and self.eq(ri[1], padd(ps(sym), pc(1)))):
                    continue
                kinds = None
                n = arr.dim(c)
                if self.eq(ci[0], ri[0]) and self.eq(ci[1], ri[1]):
                    kinds = {'eq'}
                elif not ci[0] and self.eq(ci[1], ps(sym)):
                    kinds = {'lt'}
                elif not ci[0] and self.eq(ci[1], padd(ps(sym), pc(1))):
                    kinds = {'lt', 'eq'}
                elif self.eq(ci[0], padd(ps(sym), pc(1))) and self.eq(ci[1], n):
                    kinds = {'gt'}
                elif self.eq(ci[0], ps(sym)) and self.eq(ci[1], n):
                    kinds = {'gt', 'eq'}
                if kinds is None:
                    continue
                m = arr.dim(r)
                ok_lo = isconst(lo) and (cval(lo) <= 0 or cval(lo) == 1 and kinds == {'lt'})
                ok_hi = self.prove(padd(hi, m, -1)) or kinds == {'gt'} and self.prove(padd(padd(hi, pc(1)), m, -1))
                if not ok_lo or not ok_hi:
                    continue
                # column relative to row, normalised to (smaller dim, larger dim)
                flip = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}
                if r < c:
                    ks2 = frozenset('gt' if q == 'lt' else 'lt' if q == 'gt' else 'eq' for q in kinds)
                else:
                    ks2 = frozenset(kinds)
                iv = list(b.iv)
                iv[i] = iv[j] = None
                # 'lt': first index < second index
                return Box(iv, (), (min(r, c), max(r, c), ks2))
        return None

    def blocks(self, b, sym, lo, hi, step):
        """for s in range(lo, hi, step): A[s:s+step]"""
        ks = [k for k, i in enumerate(b.iv) if i is not None and (sym in syms(i[0]) or sym in syms(i[1]))]
        if len(ks) != 1 or b.tri is not None:
            return None
        k = ks[0]
        l, h = b.iv[k]
        if self.eq(l, ps(sym)) and self.eq(h, padd(ps(sym), step)):
            iv = list(b.iv)
            iv[k] = (lo, hi)
            return Box(iv, b.excl)
        return None

    def point(self, conds, st):
        """{symbol: value} when the conditions fix loop variables by equalities"""
        r = {}
        for t, pos in conds:
            if not pos:
                return None
            ts = t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) else [t]
            for x in ts:
                if not (isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], ast.Eq)):
                    return None
                l, q = self.poly(x.left, st), self.poly(x.comparators[0], st)
                if l is None or q is None:
                    return None
                if len(l) == 1 and list(l.values()) == [1] and len(list(l)[0]) == 1 and '@' in str(list(l)[0][0]):
                    r[list(l)[0][0]] = q
                elif len(q) == 1 and list(q.values()) == [1] and len(list(q)[0]) == 1 and '@' in str(list(q)[0][0]):
                    r[list(q)[0][0]] = l
                else:
                    return None
        return r or None

    def at(self, b, pt):
        """the cell of the box that is skipped at the point"""
        r = []
        for i in b.iv:
            if i is None:
                r.append(None)
                continue
            p = i[0]
            for s, q in pt.items():
                p = psub(p, s, q)
            r.append(p)
        return tuple(r)


def hi_excl(b, lo, one):
    """descending loop from lo: earlier iterations are sym+1 .. lo"""
    return padd(lo, one)


class _Any(Box):
    def __init__(self):
        Box.__init__(self, ())

    def key(self):
        return ('any',)


ANY = _Any()


def ptext(p):
    if p is None:
        return '?'
    return ' + '.join('%s%s' % ('' if x == 1 and m else x if not m else '%s*' % x, '*'.join(str(y) for y in m)) for m, x in sorted(p.items(), key=str)) or '0'


def all_args(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def is_none(e):
    return isinstance(e, ast.Constant) and e.value is None


def attr_key(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name) and e.id == 'self' and len(parts) == 1:
        return 'self.' + parts[0]
    return None


def is_size(e):
    """x.shape[k], len(x), x.size"""
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'shape':
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len':
        return True
    return isinstance(e, ast.Attribute) and e.attr == 'size'
