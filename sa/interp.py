"""Abstract interpreter over the Python source of tslearn.

Nothing of the analysed program (or of its dependencies) is executed: source
files are parsed with `ast` and interpreted over the abstract domain of
values.py.  Program functions are inlined (context sensitive, memoised on
abstract arguments and reachable heap); external functions are modelled in
ext.py.  Branches whose test is decided by known constants are pruned, tests on
names / attributes refine the abstract state, exceptional exits are tracked.
"""
import ast
import os
import builtins
import sys

from .values import *
from . import values as _v

sys.setrecursionlimit(20000)

BUILTIN_EXC = {n: getattr(builtins, n) for n in dir(builtins)
               if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
EXTRA_EXC = {'NotFittedError': ('ValueError', 'AttributeError'), 'LinAlgError': ('ValueError',),
             'BadZipFile': ('Exception',), 'URLError': ('OSError',), 'HTTPError': ('OSError',),
             'ConvergenceWarning': ('UserWarning',), 'DataConversionWarning': ('UserWarning',),
             'InterpolationWarning': ('UserWarning',)}


class AnalysisBroken(Exception):
    """An anchor the analysis needs is not there / the analysis cannot be done."""


class Dead(Exception):
    """Abstract control does not continue past this expression."""


class State(object):
    __slots__ = ('env', 'heap')

    def __init__(self, env, heap):
        self.env = env
        self.heap = heap

    def copy(self):
        return State(self.env, self.heap)


def join_state(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return State(join_env(a.env, b.env), join_heap(a.heap, b.heap))


class Acc(object):
    """Accumulator of exceptional states per exception name."""
    __slots__ = ('d', 'seen')

    def __init__(self):
        self.d = {}
        self.seen = {}

    def add(self, exc, st):
        s = self.seen.get(exc)
        if s is not None and s[0] is st.env and s[1] is st.heap:
            return
        self.seen[exc] = (st.env, st.heap)
        d = self.d.get(exc)
        self.d[exc] = st.copy() if d is None else join_state(d, st)


class LoopAcc(object):
    __slots__ = ('brk', 'cont')

    def __init__(self):
        self.brk = None
        self.cont = None


class Frame(object):
    __slots__ = ('func', 'mod', 'node', 'ret', 'retst', 'accs', 'loops', 'yields', 'yst', 'yhook',
                 'clo', 'cls', 'selfv', 'parent', 'callnode', 'qual', 'in_loop', 'depth', 'ctx', 'with_stack')

    def __init__(self, func, mod, qual, parent=None, callnode=None):
        self.func = func
        self.mod = mod
        self.qual = qual
        self.ret = None
        self.retst = None
        self.accs = [Acc()]
        self.loops = []
        self.yields = None
        self.yst = None
        self.yhook = None
        self.clo = {}
        self.cls = None
        self.selfv = None
        self.parent = parent
        self.callnode = callnode
        self.in_loop = 0
        self.depth = parent.depth + 1 if parent is not None else 0
        self.ctx = (callnode.lineno if callnode is not None and hasattr(callnode, 'lineno') else 0)
        self.with_stack = []


class Event(object):
    __slots__ = ('rule', 'mod', 'line', 'func', 'msg', 'key', 'chain', 'data')

    def __init__(self, rule, mod, line, func, msg, key, chain=(), data=None):
        self.rule = rule
        self.mod = mod
        self.line = line
        self.func = func
        self.msg = msg
        self.key = key
        self.chain = chain
        self.data = data

    def ident(self):
        return (self.rule, self.mod, self.func, self.key, self.line)


class Args(object):
    """Evaluated call arguments."""
    __slots__ = ('pos', 'kw', 'star', 'dstar', 'names')

    def __init__(self, pos=(), kw=None, star=None, dstar=None):
        self.pos = list(pos)
        self.kw = dict(kw or {})
        self.star = star      # V summarising extra unknown positional args or None
        self.dstar = dstar    # V summarising extra unknown keyword args or None

    def all(self):
        r = list(self.pos) + list(self.kw.values())
        if self.star is not None:
            r.append(self.star)
        if self.dstar is not None:
            r.append(self.dstar)
        return r


class Program(object):
    def __init__(self, root, pkg='tslearn', absent=()):
        self.root = root
        self.pkg = pkg
        self.absent = set(absent)
        self.trees = {}
        self.paths = {}
        self.ispkg = {}
        self.src = {}
        self.load()

    def load(self):
        base = os.path.join(self.root, self.pkg)
        if not os.path.isdir(base):
            raise AnalysisBroken('no package directory %s' % base)
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__') and not x.startswith('.cached'))
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                    self.ispkg[rel] = True
                with open(p, encoding='utf-8') as fh:
                    s = fh.read()
                try:
                    self.trees[rel] = ast.parse(s)
                except SyntaxError as e:
                    raise AnalysisBroken('cannot parse %s: %s' % (p, e))
                self.paths[rel] = os.path.relpath(p, self.root)
                self.src[rel] = s
                for n in ast.walk(self.trees[rel]):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                        n.func._called = True


ORDER_LABELS = frozenset([('setorder',), ('unordered',), ('listdir',)])


class Hooks(object):
    """No-op observation points; property drivers override them."""

    def write(self, ip, roots, node, fr, how, v):
        pass

    def attr_store(self, ip, ref, h, name, v, node, fr):
        return v

    def attr_load(self, ip, ref, h, name, v, node, fr):
        pass

    def attr_missing(self, ip, ref, h, name, node, fr, maybe):
        pass

    def call(self, ip, f, bound, explicit, node, fr, st):
        pass

    def call_bad(self, ip, f, why, node, fr):
        pass

    def ext_call(self, ip, name, a, node, fr, st):
        pass

    def ext_method(self, ip, recv, name, a, node, fr, st):
        pass

    def parallel(self, ip, o, x, node, fr, st):
        pass

    def unknown_call(self, ip, fv, a, node, fr, st):
        pass

    def dyn_setattr(self, ip, base, name, v, node, fr, st):
        pass

    def hasattr_test(self, ip, ref, h, name, node, fr):
        pass

    def res_use(self, ip, ref, h, name, a, node, fr, st):
        pass

    def name_unbound(self, ip, name, node, fr, maybe):
        pass

    def ext_attr(self, ip, v, name, node, fr):
        pass

    def ext_result(self, ip, name, a, v, node, fr, st):
        return v

    def iterate(self, ip, v, node, fr, st):
        pass

    def func_result(self, ip, f, bound, v, node, fr):
        return v

    def loop(self, ip, node, fr, st):
        pass

    def test(self, ip, v, node, fr, st):
        pass

    def compare(self, ip, op, l, r, node, fr, st):
        """a comparison l op r (op: the ast operator class)"""

    def arith(self, ip, op, args, v, node, fr, st):
        """result v of an arithmetic operator"""
        return v

    def assume(self, ip, v, ts, fs):
        """v was tested: ts / fs are the states (or None) where it is true / false"""

    def compare_lab(self, lab):
        """labels of the result of comparing values with these labels"""
        return lab

    def autograd(self, ip, cls, a, out, back, node, fr, st):
        """result of <autograd Function>.apply: out is the value forward returns,
        back the values backward returns per argument (or None)"""
        return out

    def shape_lab(self, lab):
        """labels of the shape of an array with these labels"""
        return lab

    def shape_val(self, ip, v, name):
        """a value for the attribute shape / ndim of the array v, or None"""

    def attr_val(self, ip, v, name, st, fr, node):
        """a value for the (uncalled) attribute `name` of the external object v, or None"""

    def compare_val(self, ip, op, l, r, st):
        """True / False when the hook knows the outcome of l op r, or None"""

    def method_result(self, ip, recv, name, a, v, node, fr, st):
        """result v of a method of an external object"""
        return v

    def index(self, ip, b, i, r, node, fr, st):
        """result r of b[i]"""
        return r

    def key(self, ip, h, i, node, fr, st):
        """a lookup of key(s) i in dict object h"""


class Interp(object):
    def __init__(self, program, hooks=None, mode='numpy', max_depth=60, for_once=False):
        from . import ext
        self.ext = ext
        self.p = program
        self.h = hooks or Hooks()
        self.mode = mode
        self.max_depth = max_depth
        self.for_once = for_once      # assume for-loops over unknown data run at least once
        self.menv = {}
        self.mstate = {}
        self.gheap = {}
        self.events = [{}]
        self.memo = {}
        self.stack = []
        self.stats = {'functions': set(), 'calls': 0, 'ext_calls': 0, 'stmts': 0, 'memo_hits': 0}
        self.stores_cache = {}
        self.task = 0
        self.gradoff = None     # inside torch.no_grad() and the like
        self.cur_idx = None
        self.in_fitcheck = 0
        self.implicit_raise = True
        self._failed = {}
        self.exc_classes = {}
        self.scope_override = {}
        self.track_order = False
        self.unroll_all = False
        self.pins = []              # heap objects every call may depend on

    # ---------------------------------------------------------------- events
    def emit(self, rule, node, fr, msg, key=None, data=None):
        line = getattr(node, 'lineno', 0)
        e = Event(rule, fr.mod, line, fr.qual, msg, key if key is not None else msg, (), data)
        i = e.ident()
        if i not in self.events[-1]:
            self.events[-1][i] = e

    def all_events(self):
        return list(self.events[0].values())

    def clear_events(self):
        self.events = [{}]

    # ------------------------------------------------------------ module load
    def load_module(self, name):
        if name in self.menv:
            return
        if name not in self.p.trees:
            raise AnalysisBroken('module %s not found' % name)
        # parents first (a parent may itself import this module)
        if '.' in name:
            self.load_module(name.rsplit('.', 1)[0])
            if name in self.menv:
                return
        st = State({'__name__': const(name), '__file__': const('/SRC/%s' % self.p.paths.get(name, 'tslearn/x.py'))}, self.gheap)
        fr = Frame(None, name, name + '.<module>')
        self.mstate[name] = (st, fr)
        self.menv[name] = {}
        fr.node = self.p.trees[name]
        out = self.exec_module(self.p.trees[name].body, st, fr)
        if out is None:
            # importing raises definitely
            self.menv[name] = dict(st.env)
            self.module_failed(name, fr)
        else:
            self.menv[name] = dict(out.env)
            self.gheap = {**self.gheap, **out.heap}
        if name in self.mstate:
            del self.mstate[name]

    def exec_module(self, body, st, fr):
        for s in body:
            self.menv[fr.mod] = st.env
            if st.heap is not self.gheap:
                st.heap = {**st.heap, **self.gheap}
            st2 = self.exec_stmt(s, st, fr)
            if st2 is None:
                return None
            st = st2
            self.menv[fr.mod] = st.env
            self.gheap = {**self.gheap, **st.heap}
        return st

    def module_failed(self, name, fr):
        excs = sorted(fr.accs[0].d)
        self._failed[name] = excs
        self.emit('module-import-raises', fr.node.body[0] if fr.node.body else fr.node, fr,
                  'importing %s raises %s' % (name, ','.join(excs)), key=name)

    def module(self, name):
        self.load_module(name)
        return self.menv[name]

    def lookup_qual(self, modname, name):
        env = self.module(modname)
        v = env.get(name)
        return v

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            st = self.exec_stmt(s, st, fr)
        return st

    def exec_stmt(self, s, st, fr):
        self.stats['stmts'] += 1
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            return st
        try:
            return m(s, st, fr)
        except Dead:
            return None
        except (AnalysisBroken, RecursionError):
            raise
        except Exception as e:
            self.internal(e, s, fr)
            return st

    def internal(self, e, node, fr):
        """a construct the interpreter trips over is treated as unknown"""
        if os.environ.get('SA_STRICT'):
            raise
        self.stats.setdefault('internal', set()).add(
            '%s:%s %s: %s' % (fr.mod, getattr(node, 'lineno', 0), type(e).__name__, e))

    def x_Expr(self, s, st, fr):
        self.ev(s.value, st, fr)
        return st

    def x_Pass(self, s, st, fr):
        return st

    def x_Assert(self, s, st, fr):
        t, f = self.cond(s.test, st, fr)
        if f is not None:
            self.raise_('AssertionError', f, fr)
        return t

    def x_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)
        return st

    def x_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self.ev(s.value, st, fr)
            self.assign(s.target, v, st, fr, s)
        return st

    def x_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name_value(t, st, fr)
            rhs = self.ev(s.value, st, fr)
            self.aug_inplace(old, rhs, s, st, fr)
            new = self.binop(type(s.op), old, rhs, st, fr, s)
            mutable = [o for o in old.o if isinstance(o, Ref)]
            if mutable:
                new = join(new, V(o=frozenset(mutable), own=old.own, lab=old.lab))
            if old.top and old.kind in ('nd', 'tt', 'any') and old.own:
                # in-place: result is the same object
                new = new.with_(own=new.own | old.own)
            self.set_name(t.id, new, st, fr)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            old = self.getattr_(base, t.attr, st, fr, t)
            rhs = self.ev(s.value, st, fr)
            self.aug_inplace(old, rhs, s, st, fr)
            new = self.binop(type(s.op), old, rhs, st, fr, s)
            if old.top and old.kind in ('nd', 'tt', 'any') and old.own:
                new = new.with_(own=new.own | old.own)
            self.setattr_(base, t.attr, new, st, fr, s)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            idx = self.ev(t.slice, st, fr)
            old = self.subscript(base, idx, t, st, fr)
            rhs = self.ev(s.value, st, fr)
            new = self.binop(type(s.op), old, rhs, st, fr, s)
            self.store_sub(base, idx, new, t, st, fr, s)
        return st

    def aug_inplace(self, old, rhs, s, st, fr):
        if old.top and old.own and old.kind in ('nd', 'tt', 'any'):
            self.h.write(self, old.own, s, fr, 'augmented assignment', old)
        for o in old.o:
            if isinstance(o, Ref):
                h = self.hget(st, o)
                if h is None:
                    continue
                if h.own and h.kind in ('list', 'dict', 'set'):
                    self.h.write(self, h.own, s, fr, 'augmented assignment', old)
                if h.kind in ('list', 'set'):
                    e = self.elem_of(rhs, st, fr, s)
                    nh = self.summarise(h)
                    self.hset(st, o, nh.with_(elem=join(nh.elem, e)))

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env = dict(st.env)
                st.env[t.id] = ABSENTV
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st, fr)
                self.delattr_(base, t.attr, st, fr, s)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st, fr)
                idx = self.ev(t.slice, st, fr)
                self.mutate(base, st, fr, s, 'del item')
                for o in base.o:
                    if isinstance(o, Ref):
                        h = self.hget(st, o)
                        if h is not None:
                            ok, k = idx.single_const()
                            if ok and h.kind == 'dict' and k in h.fields and len(base.o) == 1:
                                f = dict(h.fields)
                                del f[k]
                                self.hset(st, o, h.with_(fields=f))
                            elif h.kind == 'list':
                                self.hset(st, o, self.summarise(h))
        return st

    def x_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONEV
        fr.ret = join(fr.ret, v)
        fr.retst = join_state(fr.retst, st)
        return None

    def x_Raise(self, s, st, fr):
        if s.exc is None:
            self.raise_('*', st, fr)
            return None
        v = self.ev(s.exc, st, fr)
        names = self.exc_names(v, st)
        for n in names:
            self.raise_(n, st, fr)
        return None

    def exc_names(self, v, st):
        names = set()
        for o in v.o:
            if isinstance(o, Ext):
                names.add(o.name.rsplit('.', 1)[-1])
            elif isinstance(o, Cls):
                names.add(o.name)
            elif isinstance(o, Ref):
                h = self.hget(st, o)
                if h is not None and isinstance(h.cls, Cls):
                    names.add(h.cls.name)
                else:
                    names.add('*')
            elif isinstance(o, T) and o.tag == 'excinst':
                names.add(o.a[0])
            elif isinstance(o, T) and o.tag == 'tuple':
                for e in o.a[0]:
                    names |= self.exc_names(e, st)
            else:
                names.add('*')
        if v.top or not names:
            names.add('*')
        return names

    def exc_bases(self, n):
        """set of names of base classes of exception n (including itself)"""
        r = {n}
        if n in BUILTIN_EXC:
            r |= {c.__name__ for c in BUILTIN_EXC[n].__mro__}
        for b in EXTRA_EXC.get(n, ()):
            r |= self.exc_bases(b)
        cl = self.exc_classes.get(n) if hasattr(self, 'exc_classes') else None
        if cl is not None:
            for b in cl.bases:
                bn = b.name if isinstance(b, Cls) else b.name.rsplit('.', 1)[-1]
                if bn != n:
                    r |= self.exc_bases(bn)
        r |= {'Exception', 'BaseException'} if n not in BUILTIN_EXC else set()
        return r

    def raise_(self, exc, st, fr):
        fr.accs[-1].add(exc, st.copy())

    def implicit(self, st, fr):
        if self.implicit_raise:
            fr.accs[-1].add('*', st)

    def x_If(self, s, st, fr):
        t, f = self.cond(s.test, st, fr)
        a = self.exec_block(s.body, t, fr) if t is not None else None
        b = self.exec_block(s.orelse, f, fr) if f is not None else None
        return join_state(a, b)

    def x_While(self, s, st, fr):
        self.h.loop(self, s, fr, st)
        la = LoopAcc()
        fr.loops.append(la)
        fr.in_loop += 1
        exit_st = None
        cur = st
        prev = None
        it = 0
        try:
            while True:
                t, f = self.cond_safe(s.test, cur.copy(), fr)
                exit_st = join_state(exit_st, f)
                if t is None:
                    break
                la.cont = None
                b = self.exec_block(s.body, t, fr)
                b = join_state(b, la.cont)
                if b is None:
                    break
                new = self.widen(cur, join_state(cur, b), it)
                if new.env == cur.env and new.heap == cur.heap:
                    break
                cur = new
                it += 1
                if it > 12:
                    break
        finally:
            fr.loops.pop()
            fr.in_loop -= 1
        if s.orelse and exit_st is not None:
            exit_st = self.exec_block(s.orelse, exit_st, fr)
        return join_state(exit_st, la.brk)

    def cond_safe(self, test, st, fr):
        try:
            return self.cond(test, st, fr)
        except Dead:
            return None, None

    def widen(self, old, new, it):
        if it < 2:
            return new
        env = new.env
        ch = None
        for k, v in env.items():
            o = old.env.get(k)
            if o is not None and o is not v and o != v:
                w = self.widen_v(o, v)
                if w is not v:
                    if ch is None:
                        ch = dict(env)
                    ch[k] = w
        heap = new.heap
        hch = None
        for k, h in heap.items():
            oh = old.heap.get(k)
            if oh is not None and oh is not h and oh != h:
                f = {}
                diff = False
                for a, v in h.fields.items():
                    o = oh.fields.get(a)
                    w = self.widen_v(o, v) if o is not None and o != v else v
                    diff |= w is not v
                    f[a] = w
                if diff:
                    if hch is None:
                        hch = dict(heap)
                    hch[k] = h.with_(fields=f)
        return State(ch or env, hch or heap)

    @staticmethod
    def widen_v(o, v):
        grow = v.c - o.c
        nums = [x for x in v.c if x[0] in ('i', 'f')]
        if any(x[0] in ('i', 'f') for x in grow):
            kind = 'int' if all(x[0] == 'i' for x in nums) else 'num'
            kind = join_kind(kind, v.kind) if v.top else kind
            return V(c=frozenset(x for x in v.c if x[0] not in ('i', 'f')), o=v.o, top=True, kind=kind,
                     own=v.own, lab=v.lab, idt=None)
        if len(grow) > 0 and len(v.c) > 8:
            return V(c=frozenset(x for x in v.c if x in (NONE, ABSENT)), o=v.o, top=True, kind='any',
                     own=v.own, lab=v.lab)
        if len(v.o) > 12 and len(v.o) > len(o.o):
            labs = v.lab
            return V(c=v.c, o=frozenset(x for x in v.o if not (isinstance(x, T) and x.tag == 'tuple')),
                     top=True, kind='any', own=v.own, lab=labs)
        return v

    def x_For(self, s, st, fr):
        itv = self.ev(s.iter, st, fr)
        self.h.loop(self, s, fr, st)
        self.h.iterate(self, itv, s.iter, fr, st)
        seq = self.known_seq(itv, st, fr)
        la = LoopAcc()
        fr.loops.append(la)
        try:
            if seq is not None and self.unrollable(seq):
                cur = st
                for e in seq:
                    if cur is None:
                        break
                    la.cont = None
                    try:
                        self.assign(s.target, e, cur, fr, s)
                    except Dead:
                        cur = None
                        break
                    b = self.exec_block(s.body, cur, fr)
                    cur = join_state(b, la.cont)
                if s.orelse and cur is not None:
                    cur = self.exec_block(s.orelse, cur, fr)
                return join_state(cur, la.brk)
            e = self.elem_of(itv, st, fr, s)
            fr.in_loop += 1
            try:
                return self.loop_fix(lambda b: self.assign(s.target, e, b, fr, s), s, st, fr, la)
            finally:
                fr.in_loop -= 1
        finally:
            fr.loops.pop()

    def loop_fix(self, bind, s, st, fr, la):
        cur = st
        first_done = None
        it = 0
        while True:
            b = cur.copy()
            try:
                bind(b)
            except Dead:
                break
            la.cont = None
            b = self.exec_block(s.body, b, fr)
            b = join_state(b, la.cont)
            if b is None:
                if self.for_once:
                    # body always leaves the loop
                    if it == 0:
                        cur = None
                break
            first_done = join_state(first_done, b)
            new = self.widen(cur, join_state(cur, b), it)
            if new.env == cur.env and new.heap == cur.heap:
                break
            cur = new
            it += 1
            if it > 12:
                break
        out = cur
        if self.for_once:
            out = first_done
        if s.orelse and out is not None:
            out = self.exec_block(s.orelse, out, fr)
        return join_state(out, la.brk)

    x_AsyncFor = x_For

    def unrollable(self, seq):
        if len(seq) <= 3:
            return True
        if len(seq) > 400:
            return False
        for e in seq:
            if e.top:
                return False
            for o in e.o:
                if isinstance(o, T) and o.tag == 'tuple' and o.a[0]:
                    for x in o.a[0]:
                        if x.top and x.kind not in ('str',):
                            return self.unroll_all or len(seq) <= 8
        return True

    def x_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1].brk = join_state(fr.loops[-1].brk, st)
        return None

    def x_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1].cont = join_state(fr.loops[-1].cont, st)
        return None

    def x_Global(self, s, st, fr):
        return st

    x_Nonlocal = x_Global

    def x_Match(self, s, st, fr):
        self.ev(s.subject, st, fr)
        out = st
        for c in s.cases:
            b = st.copy()
            for n in ast.walk(c.pattern):
                nm = getattr(n, 'name', None)
                if isinstance(nm, str):
                    b.env = dict(b.env)
                    b.env[nm] = TOP
            b = self.exec_block(c.body, b, fr)
            out = join_state(out, b)
        return out

    # try / with -------------------------------------------------------------
    def x_Try(self, s, st, fr):
        if s.finalbody:
            return self.try_finally(s, st, fr)
        return self.try_except(s, st, fr)

    x_TryStar = x_Try

    def try_except(self, s, st, fr):
        acc = Acc()
        fr.accs.append(acc)
        b = self.exec_block(s.body, st.copy(), fr)
        fr.accs.pop()
        if b is not None and s.orelse:
            b = self.exec_block(s.orelse, b, fr)
        out = b
        for exc in sorted(acc.d):
            es = acc.d[exc]
            caught = False
            for hd in s.handlers:
                names = None
                if hd.type is not None:
                    hs = es.copy()
                    hv = self.ev(hd.type, hs, fr)
                    names = self.exc_names(hv, hs)
                if exc == '*':
                    match = True
                    full = names is None or bool(names & {'Exception', 'BaseException'})
                else:
                    bases = self.exc_bases(exc)
                    full = names is None or bool(names & bases)
                    # a handler naming a subclass may match (raise statement of base class): no
                    match = full or (names is not None and '*' in names)
                if match:
                    hs = es.copy()
                    if hd.name:
                        hs.env = dict(hs.env)
                        hs.env[hd.name] = V(o=frozenset([T('excinst', exc)])) if exc != '*' else TOP
                    r = self.exec_block(hd.body, hs, fr)
                    out = join_state(out, r)
                    if full:
                        caught = True
                        break
            if not caught:
                fr.accs[-1].add(exc, es)
        return out

    def try_finally(self, s, st, fr):
        acc = Acc()
        fr.accs.append(acc)
        oret, oretst = fr.ret, fr.retst
        fr.ret, fr.retst = None, None
        oloop = None
        if fr.loops:
            oloop = (fr.loops[-1].brk, fr.loops[-1].cont)
            fr.loops[-1].brk = fr.loops[-1].cont = None
        if s.handlers:
            b = self.try_except(s, st.copy(), fr)
        else:
            b = self.exec_block(s.body, st.copy(), fr)
            if b is not None and s.orelse:
                b = self.exec_block(s.orelse, b, fr)
        fr.accs.pop()
        ret, retst = fr.ret, fr.retst
        fr.ret, fr.retst = oret, oretst
        brk = cont = None
        if fr.loops and oloop is not None:
            brk, cont = fr.loops[-1].brk, fr.loops[-1].cont
            fr.loops[-1].brk, fr.loops[-1].cont = oloop
        out = self.exec_block(s.finalbody, b, fr) if b is not None else None
        if retst is not None:
            rs = self.exec_block(s.finalbody, retst.copy(), fr)
            if rs is not None:
                fr.ret = join(fr.ret, ret)
                fr.retst = join_state(fr.retst, rs)
        if brk is not None:
            x = self.exec_block(s.finalbody, brk.copy(), fr)
            if x is not None:
                fr.loops[-1].brk = join_state(fr.loops[-1].brk, x)
        if cont is not None:
            x = self.exec_block(s.finalbody, cont.copy(), fr)
            if x is not None:
                fr.loops[-1].cont = join_state(fr.loops[-1].cont, x)
        for exc in sorted(acc.d):
            x = self.exec_block(s.finalbody, acc.d[exc].copy(), fr)
            if x is not None:
                fr.accs[-1].add(exc, x)
        return out

    def x_With(self, s, st, fr):
        return self.with_items(s, list(s.items), st, fr)

    x_AsyncWith = x_With

    def with_items(self, s, items, st, fr):
        if not items:
            return self.exec_block(s.body, st, fr)
        it = items[0]
        ctx = it.context_expr
        # a context manager written as a generator function of the program
        v = self.ev(ctx, st, fr)
        gens = [o for o in v.o if isinstance(o, T) and o.tag == 'ctxgen']
        if gens and len(v.o) == 1 and not v.top:
            return self.with_generator(s, items, it, gens[0], st, fr)
        ev = self.enter_value(v, ctx, st, fr)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ev, st, fr, s)
        fr.with_stack.append((ctx, v))
        grad = [o.a[0] for o in v.o if isinstance(o, T) and o.tag == 'gradctx']
        off = self.gradoff
        if grad:
            self.gradoff = None if all(grad) else 'no_grad'
        suppress = any(isinstance(o, T) and o.tag == 'suppress' for o in v.o)
        acc = Acc()
        fr.accs.append(acc)
        oret, oretst = fr.ret, fr.retst
        fr.ret = fr.retst = None
        oloop = None
        if fr.loops:
            oloop = (fr.loops[-1].brk, fr.loops[-1].cont)
            fr.loops[-1].brk = fr.loops[-1].cont = None
        try:
            out = self.with_items(s, items[1:], st, fr)
        finally:
            fr.accs.pop()
            fr.with_stack.pop()
            self.gradoff = off
        ret, retst = fr.ret, fr.retst
        fr.ret, fr.retst = oret, oretst
        close = lambda x: self.exit_value(v, ctx, x, fr)
        if out is not None:
            close(out)
        if retst is not None:
            close(retst)
            fr.ret = join(fr.ret, ret)
            fr.retst = join_state(fr.retst, retst)
        if oloop is not None:
            la = fr.loops[-1]
            for nm in ('brk', 'cont'):
                x = getattr(la, nm)
                if x is not None:
                    close(x)
                setattr(la, nm, join_state(oloop[0 if nm == 'brk' else 1], x))
        for exc, x in acc.d.items():
            close(x)
            if suppress:
                out = join_state(out, x)
            fr.accs[-1].add(exc, x)
        return out

    def autograd_apply(self, cls, a, node, st, fr):
        """<subclass of torch.autograd.Function>.apply(*a): forward runs outside the
        graph; backward decides what is differentiable"""
        fwd, bwd = self.class_lookup(cls, 'forward'), self.class_lookup(cls, 'backward')
        if not isinstance(fwd, V) or a.star is not None or a.dstar is not None:
            return self.ext.unknown_call(self, obj(T('fnapply', cls)), a, node, st, fr)
        own = [V(c=v.c, o=v.o, top=v.top, kind=v.kind, own=v.own | frozenset([('fnarg', i)]), lab=v.lab, idt=v.idt)
               if v.top else v for i, v in enumerate(a.pos)]
        off, self.gradoff = self.gradoff, 'forward'
        try:
            out = BOT
            for o in fwd.o:
                if isinstance(o, Func):
                    out = join(out, self.call_value(obj(Func(o.node, o.mod, o.qual, o.clo, o.cls, 'plain', o.defaults)),
                                                    Args([TOP] + own, a.kw), node, st, fr))
            back = None
            if isinstance(bwd, V):
                for o in bwd.o:
                    if isinstance(o, Func):
                        s2 = st.copy()
                        try:
                            g = V(top=True, kind='tt', lab=frozenset([('go',)]))
                            r = self.call_value(obj(Func(o.node, o.mod, o.qual, o.clo, o.cls, 'plain', o.defaults)), Args([TOP, g]), node, s2, fr)
                            back = self.known_seq(r, s2, fr) or ([r] if r.top else None)
                        except Dead:
                            pass
        finally:
            self.gradoff = off
        return self.h.autograd(self, cls, a, out, back, node, fr, st)

    def enter_value(self, v, node, st, fr):
        r = BOT
        for o in v.o:
            if isinstance(o, Ref):
                h = self.hget(st, o)
                if h is not None and h.kind == 'inst' and isinstance(h.cls, Cls):
                    m = self.class_lookup(h.cls, '__enter__')
                    if m is not None and isinstance(m, V):
                        r = join(r, self.call_value(self.bind_method(m, obj(o), h.cls), Args(), node, st, fr))
                        continue
            r = join(r, V(o=frozenset([o]), lab=v.lab, own=v.own))
        if v.top or v.bottom:
            r = join(r, v)
        if r.bottom:
            r = TOP
        return r

    def exit_value(self, v, node, st, fr):
        for o in v.o:
            if isinstance(o, Ref):
                h = self.hget(st, o)
                if h is not None and h.kind == 'res':
                    self.hset(st, o, h.set('closed', const(True)))
                if h is not None and h.kind == 'inst' and isinstance(h.cls, Cls):
                    m = self.class_lookup(h.cls, '__exit__')
                    if m is not None and isinstance(m, V):
                        try:
                            self.call_value(self.bind_method(m, obj(o), h.cls), Args([NONEV, NONEV, NONEV]), node, st, fr)
                        except Dead:
                            pass

    def with_generator(self, s, items, it, gen, st, fr):
        """with <generator context manager>: run the generator body around the
        with-body (the with-body is executed at its yield)."""
        func, envitems = gen.a[0], gen.a[1]
        g = Frame(func, func.mod, func.qual, fr, it.context_expr)
        g.clo = dict(func.clo)
        g.cls = func.cls
        result = {'ret': None, 'retst': None, 'brk': None, 'cont': None, 'norm': None, 'ran': False}

        def hook(gst, yv):
            result['ran'] = True
            caller = State(st.env, gst.heap)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, yv, caller, fr, s)
            oret, oretst = fr.ret, fr.retst
            fr.ret = fr.retst = None
            ol = None
            if fr.loops:
                ol = (fr.loops[-1].brk, fr.loops[-1].cont)
                fr.loops[-1].brk = fr.loops[-1].cont = None
            acc = Acc()
            fr.accs.append(acc)
            try:
                n = self.with_items(s, items[1:], caller, fr)
            finally:
                fr.accs.pop()
            rv, rs = fr.ret, fr.retst
            fr.ret, fr.retst = oret, oretst
            bk = ct = None
            if fr.loops and ol is not None:
                bk, ct = fr.loops[-1].brk, fr.loops[-1].cont
                fr.loops[-1].brk, fr.loops[-1].cont = ol
            result['norm'] = join_state(result['norm'], n)
            result['ret'] = join(result['ret'], rv) if rv is not None else result['ret']
            result['retst'] = join_state(result['retst'], rs)
            result['brk'] = join_state(result['brk'], bk)
            result['cont'] = join_state(result['cont'], ct)
            for exc, x in acc.d.items():
                result.setdefault('excenv', {})[exc] = x.env
                g.accs[-1].add(exc, State(gst.env, x.heap))
            heap = None
            for x in (n, rs, bk, ct):
                if x is not None:
                    heap = join_heap(heap, x.heap)
            if heap is None:
                raise Dead()
            gst.heap = heap

        g.yhook = hook
        gst = State(dict(envitems), st.heap)
        out = self.exec_block(func.node.body, gst, g)
        out = join_state(out, g.retst)
        for exc, x in g.accs[0].d.items():
            e = result.get('excenv', {}).get(exc, st.env)
            fr.accs[-1].add(exc, State(e, x.heap))
        if out is None:
            return None
        heap = out.heap
        if result['retst'] is not None:
            fr.ret = join(fr.ret, result['ret'])
            fr.retst = join_state(fr.retst, State(result['retst'].env, heap))
        for nm in ('brk', 'cont'):
            if result[nm] is not None:
                la = fr.loops[-1]
                setattr(la, nm, join_state(getattr(la, nm), State(result[nm].env, heap)))
        if result['norm'] is None:
            if not result['ran']:
                return State(st.env, heap)
            return None
        return State(result['norm'].env, heap)

    # imports ----------------------------------------------------------------
    def x_Import(self, s, st, fr):
        for a in s.names:
            top_ = a.name.split('.')[0]
            if top_ == self.p.pkg:
                self.load_module(a.name)
                if a.asname:
                    self.set_name(a.asname, obj(Mod(a.name)), st, fr)
                else:
                    self.set_name(top_, obj(Mod(top_)), st, fr)
            else:
                if top_ in self.p.absent:
                    self.raise_('ModuleNotFoundError', st, fr)
                    return None
                if a.asname:
                    self.set_name(a.asname, obj(Ext(a.name)), st, fr)
                else:
                    self.set_name(top_, obj(Ext(top_)), st, fr)
        return st

    def x_ImportFrom(self, s, st, fr):
        if s.level:
            base = fr.mod.split('.')
            if not self.p.ispkg.get(fr.mod):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        top_ = name.split('.')[0]
        if top_ == self.p.pkg:
            if name not in self.p.trees:
                self.raise_('ModuleNotFoundError', st, fr)
                return None
            try:
                self.load_module(name)
            except AnalysisBroken:
                raise
            if name in self._failed:
                for x in self._failed[name] or ['ImportError']:
                    self.raise_(x if x != '*' else 'ImportError', st, fr)
                return None
            env = self.menv[name]
            for a in s.names:
                if a.name == '*':
                    for k, v in env.items():
                        if not k.startswith('_'):
                            self.set_name(k, v, st, fr)
                    continue
                v = env.get(a.name)
                if v is None:
                    sub = name + '.' + a.name
                    if sub in self.p.trees:
                        self.load_module(sub)
                        v = obj(Mod(sub))
                    else:
                        self.emit('import-missing', s, fr, 'module %s has no name %s' % (name, a.name), key=(name, a.name))
                        self.raise_('ImportError', st, fr)
                        return None
                self.set_name(a.asname or a.name, v, st, fr)
        elif top_ == '__future__':
            return st
        else:
            if top_ in self.p.absent:
                self.raise_('ModuleNotFoundError', st, fr)
                return None
            for a in s.names:
                if a.name == '*':
                    continue
                self.set_name(a.asname or a.name, self.ext.ext_value(name + '.' + a.name), st, fr)
        return st

    # definitions ------------------------------------------------------------
    def x_FunctionDef(self, s, st, fr):
        v = self.make_func(s, st, fr, s.name)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st, fr)
        self.set_name(s.name, v, st, fr)
        return st

    x_AsyncFunctionDef = x_FunctionDef

    def free_names(self, node):
        r = self.stores_cache.get(id(node))
        if r is None:
            names = set()
            for n in ast.walk(node):
                if isinstance(n, ast.Name):
                    names.add(n.id)
            self.stores_cache[id(node)] = r = names
        return r

    def make_func(self, node, st, fr, name):
        clo = frozenset()
        if fr.func is not None or fr.cls is not None and fr.func is not None:
            names = self.free_names(node)
            items = {}
            for k in names:
                if k in fr.clo:
                    items[k] = fr.clo[k]
                if k in st.env:
                    items[k] = st.env[k]
            clo = frozenset(items.items())
        a = node.args
        pd = tuple(self.ev(d, st, fr) for d in a.defaults)
        kd = tuple((k.arg, self.ev(d, st, fr)) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)
        qual = (fr.qual.replace('.<module>', '') + '.' + name)
        f = Func(node, fr.mod, qual, clo, None, 'plain', (pd, kd))
        return obj(f)

    def decorate(self, d, v, st, fr):
        dv = self.ev(d, st, fr)
        fs = [o for o in v.o if isinstance(o, Func)]
        names = {o.name for o in dv.o if isinstance(o, Ext)}
        if fs and len(v.o) == 1:
            f = fs[0]
            nm = {n.rsplit('.', 1)[-1] for n in names}
            k = None
            if 'staticmethod' in nm:
                k = 'static'
            elif 'classmethod' in nm:
                k = 'class'
            elif nm & {'property', 'cached_property', 'available_if'}:
                k = 'property' if nm & {'property', 'cached_property'} else None
            elif 'contextmanager' in nm:
                k = 'ctx'
            if k is not None:
                return obj(Func(f.node, f.mod, f.qual, f.clo, f.cls, k, f.defaults))
            if any(isinstance(o, T) and o.tag == 'setter' for o in dv.o):
                return obj(Func(f.node, f.mod, f.qual, f.clo, f.cls, 'setter', f.defaults))
        prog = [o for o in dv.o if isinstance(o, (Func,)) or (isinstance(o, T) and o.tag in ('partial', 'bound'))]
        if prog and not dv.top:
            try:
                return self.call_value(dv, Args([v]), d, st, fr)
            except Dead:
                return v
        return v

    def x_ClassDef(self, s, st, fr):
        qual = fr.qual.replace('.<module>', '') + '.' + s.name
        c = Cls(s, fr.mod, s.name, qual)
        for b in s.bases:
            bv = self.ev(b, st, fr)
            for o in bv.o:
                if isinstance(o, (Cls, Ext)):
                    c.bases.append(o)
        if any(k.arg == 'metaclass' for k in s.keywords):
            pass
        self.exc_classes[c.name] = c
        inner = Frame(fr.func, fr.mod, qual, fr.parent, fr.callnode)
        inner.clo = fr.clo
        cst = State({}, st.heap)
        # class body sees enclosing names through module env / closure
        inner.clo = dict(fr.clo)
        if fr.func is not None:
            inner.clo.update(st.env)
        for stmt in s.body:
            r = self.exec_stmt(stmt, cst, inner)
            if r is None:
                break
            cst = r
        st.heap = cst.heap
        for k, v in cst.env.items():
            nv = v
            fo = set()
            for o in v.o:
                if isinstance(o, Func) and o.cls is None:
                    fo.add(Func(o.node, o.mod, o.qual, o.clo, c, o.kindf, o.defaults))
                else:
                    fo.add(o)
            nv = v.with_(o=frozenset(fo))
            c.attrs[k] = nv
        v = obj(c)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, fr)
            if any(isinstance(o, Func) for o in dv.o):
                v = self.call_value(dv, Args([v]), d, st, fr)
        self.set_name(s.name, v, st, fr)
        return st

    # ------------------------------------------------------------ assignment
    def set_name(self, name, v, st, fr):
        st.env = dict(st.env)
        st.env[name] = v
        if fr.func is None and fr.cls is None and fr.mod in self.mstate and self.mstate[fr.mod][1] is fr:
            self.menv[fr.mod] = st.env

    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            self.setattr_(base, t.attr, v, st, fr, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            idx = self.ev(t.slice, st, fr)
            self.store_sub(base, idx, v, t, st, fr, node)

    def unpack(self, elts, v, st, fr, node):
        n = len(elts)
        parts = [BOT] * n
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        done = False
        for o in v.o:
            seq = self.seq_of_obj(o, st, v)
            if seq is not None:
                if not star and len(seq) == n:
                    for i in range(n):
                        parts[i] = join(parts[i], seq[i].addlab(v.lab))
                    done = True
                    continue
                if star and len(seq) >= n - 1:
                    k = star[0]
                    after = n - 1 - k
                    for i in range(k):
                        parts[i] = join(parts[i], seq[i].addlab(v.lab))
                    for j in range(after):
                        parts[n - 1 - j] = join(parts[n - 1 - j], seq[len(seq) - 1 - j].addlab(v.lab))
                    mid = join_all(seq[k:len(seq) - after])
                    parts[k] = join(parts[k], self.new_list(None, mid, st, fr, elts[k]))
                    done = True
                    continue
                continue
            e = self.elem_of(V(o=frozenset([o]), lab=v.lab, own=v.own), st, fr, node)
            for i in range(n):
                parts[i] = join(parts[i], e)
            done = True
        if v.top or (not done):
            e = self.elem_of(V(top=True, kind=v.kind if v.top else 'any', own=v.own, lab=v.lab), st, fr, node)
            for i in range(n):
                parts[i] = join(parts[i], e)
        for e, p in zip(elts, parts):
            if isinstance(e, ast.Starred) and not any(isinstance(o, Ref) for o in p.o):
                p = self.new_list(None, p, st, fr, e)
            self.assign(e, p, st, fr, node)

    def hget(self, st, ref):
        h = st.heap.get(ref.id)
        if h is None:
            h = self.gheap.get(ref.id)
        return h

    def hset(self, st, ref, h):
        heap = dict(st.heap)
        heap[ref.id] = h
        st.heap = heap

    def alloc(self, node, fr, st, h, tag=''):
        rid = (fr.mod, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), tag, fr.ctx)
        ref = Ref(rid)
        self.hset(st, ref, h)
        return ref

    def new_list(self, elems, elem, st, fr, node, kind='list', lab=E):
        if elems is not None and len(elems) <= 450:
            h = HObj(kind, None, {i: e for i, e in enumerate(elems)}, elem, E, E)
        else:
            h = HObj(kind, None, {}, join_all([elem] + list(elems or [])) if elem is not None else join_all(elems or []), E, E)
        return V(o=frozenset([self.alloc(node, fr, st, h, kind)]), lab=lab)

    def new_dict(self, fields, elem, st, fr, node, lab=E):
        h = HObj('dict', None, dict(fields), elem, E, E)
        return V(o=frozenset([self.alloc(node, fr, st, h, 'dict')]), lab=lab)

    def summarise(self, h):
        if h.kind in ('list', 'set') and h.fields:
            e = join_all(list(h.fields.values()) + ([h.elem] if h.elem is not None else []))
            return h.with_(fields={}, elem=e)
        return h

    def mutate(self, base, st, fr, node, how):
        """base object(s) are mutated: report roots"""
        if base.top and base.own and base.kind not in ('num', 'int', 'bool', 'str'):
            self.h.write(self, base.own, node, fr, how, base)
        for o in base.o:
            if isinstance(o, Ref):
                h = self.hget(st, o)
                if h is not None and h.own:
                    self.h.write(self, h.own, node, fr, how, base)

    def store_sub(self, base, idx, v, t, st, fr, node):
        self.cur_idx = idx
        self.mutate(base, st, fr, node, 'item assignment')
        self.cur_idx = None
        refs = [o for o in base.o if isinstance(o, Ref)]
        for o in refs:
            h = self.hget(st, o)
            if h is None:
                continue
            strong = len(base.o) == 1 and not base.top
            ok, k = idx.single_const()
            if h.kind == 'dict':
                ks = [c[1] for c in idx.c if c[0] != 'absent']
                if ok and strong:
                    self.hset(st, o, h.set(k, v))
                elif ks and not idx.top and not idx.o:
                    f = dict(h.fields)
                    for kk in ks:
                        f[kk] = join(f[kk], v) if kk in f else join(v, ABSENTV)
                    self.hset(st, o, h.with_(fields=f))
                else:
                    f = {a: join(b, v) for a, b in h.fields.items()}
                    self.hset(st, o, h.with_(fields=f, elem=join(h.elem, v)))
            elif h.kind == 'list':
                if ok and strong and k in h.fields:
                    self.hset(st, o, h.set(k, v))
                else:
                    nh = self.summarise(h)
                    ev = v
                    if idx.top and idx.kind == 'slice':
                        ev = self.elem_of(v, st, fr, node)
                    self.hset(st, o, nh.with_(elem=join(nh.elem, ev)))
            elif h.kind == 'inst' and isinstance(h.cls, Cls):
                m = self.class_lookup(h.cls, '__setitem__')
                if isinstance(m, V):
                    self.call_value(self.bind_method(m, obj(o), h.cls), Args([idx, v]), node, st, fr)
        if base.top and isinstance(t.value, (ast.Name, ast.Attribute, ast.Subscript)):
            # weak update: what is stored flows into the array
            labs = self.deep_labels(v, st) | self.deep_labels(idx, st)
            self.flow_into(t.value, labs, st, fr)

    def flow_into(self, target, labs, st, fr):
        while isinstance(target, ast.Subscript):
            target = target.value
        if not labs:
            return
        if isinstance(target, ast.Name):
            cur = st.env.get(target.id)
            if cur is not None and not labs <= cur.lab:
                idt = cur.idt
                self.set_name(target.id, cur.with_(lab=cur.lab | labs, idt=idt), st, fr)
        elif isinstance(target, ast.Attribute):
            try:
                b = self.ev(target.value, st.copy(), fr)
            except Dead:
                return
            for o in b.o:
                if isinstance(o, Ref):
                    h = self.hget(st, o)
                    if h is not None and target.attr in h.fields:
                        f = h.fields[target.attr]
                        if not labs <= f.lab:
                            self.hset(st, o, h.set(target.attr, f.addlab(labs)))

    # ------------------------------------------------------------ attributes
    def class_lookup(self, cls, name, after=None):
        """V of class attribute, or Ext base when an external class may supply it, or None"""
        mro = cls.mro()
        if after is not None:
            if after in mro:
                mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, Cls):
                if name in c.attrs:
                    return c.attrs[name]
            else:
                r = self.ext.ext_class_has(c.name, name)
                if r:
                    return c
        return None

    def bind_method(self, m, selfv, cls):
        r = BOT
        for o in m.o:
            if isinstance(o, Func):
                if o.kindf == 'static':
                    r = join(r, obj(Func(o.node, o.mod, o.qual, o.clo, o.cls, 'plain', o.defaults)))
                elif o.kindf == 'class':
                    r = join(r, obj(T('bound', obj(cls), o)))
                else:
                    r = join(r, obj(T('bound', selfv, o)))
            else:
                r = join(r, V(o=frozenset([o]), own=m.own, lab=m.lab))
        if m.top or m.c:
            r = join(r, V(c=m.c, top=m.top, kind=m.kind, own=m.own, lab=m.lab))
        return r

    def load_inst(self, ref, h, name, v, st, fr, node, after=None, quiet=False):
        """attribute of a program instance"""
        cls = h.cls
        if name == '__class__':
            return obj(cls)
        if name == '__dict__':
            return obj(T('vars', ref))
        m = self.class_lookup(cls, name, after) if isinstance(cls, Cls) else None
        if after is None and isinstance(m, V):
            props = [o for o in m.o if isinstance(o, Func) and o.kindf == 'property']
            if props:
                return self.call_func(props[0], Args([obj(ref)]), node, st, fr)
        if after is None and name in h.fields:
            f = h.fields[name]
            if ABSENT in f.c:
                rest = f.with_(c=f.c - {ABSENT})
                if h.elem is not None:
                    rest = join(rest, h.elem)
                if rest.bottom:
                    pass
                else:
                    if isinstance(m, V):
                        rest = join(rest, self.bind_method(m, obj(ref), cls))
                    elif not quiet:
                        self.h.attr_missing(self, ref, h, name, node, fr, True)
                        self.raise_('AttributeError', st, fr)
                    if not quiet:
                        self.cur_st = st
                        self.h.attr_load(self, ref, h, name, rest, node, fr)
                    return rest
            else:
                if not quiet:
                    self.cur_st = st
                    self.h.attr_load(self, ref, h, name, f, node, fr)
                return f
        if isinstance(m, V):
            return self.bind_method(m, obj(ref), cls)
        if isinstance(m, Ext):
            return obj(T('xbase', m.name, name, ref))
        # __getattr__
        if isinstance(cls, Cls):
            g = self.class_lookup(cls, '__getattr__')
            if isinstance(g, V) and not name.startswith('__'):
                return self.call_value(self.bind_method(g, obj(ref), cls), Args([const(name)]), node, st, fr)
            if any(isinstance(b, Ext) and not self.ext.closed_base(b.name) for b in cls.mro()):
                if name in ('__name__',):
                    return STR
                return top(own=h.own, lab=h.lab)
        else:
            return top(own=h.own, lab=h.lab)
        if name.startswith('__') and name.endswith('__'):
            return TOP
        if h.elem is not None:
            if not quiet:
                self.h.attr_missing(self, ref, h, name, node, fr, True)
            self.raise_('AttributeError', st, fr)
            return h.elem
        if not quiet:
            self.h.attr_missing(self, ref, h, name, node, fr, False)
            self.raise_('AttributeError', st, fr)
        return BOT

    def getattr_(self, v, name, st, fr, node, quiet=False):
        r = BOT
        for o in sorted(v.o, key=repr) if len(v.o) > 1 else v.o:
            if isinstance(o, Ref):
                h = self.hget(st, o)
                if h is None:
                    r = join(r, top(lab=v.lab))
                elif h.kind == 'inst':
                    x = self.load_inst(o, h, name, v, st, fr, node, quiet=quiet)
                    if self.track_order and v.lab & ORDER_LABELS:
                        x = self.from_ordered(x, v.lab & ORDER_LABELS)
                    r = join(r, x)
                elif h.kind == 'res':
                    r = join(r, obj(T('xmeth', V(o=frozenset([o]), lab=v.lab), name)))
                else:
                    r = join(r, obj(T('cmeth', V(o=frozenset([o]), lab=v.lab, own=v.own), name)))
            elif isinstance(o, Cls):
                if name in ('__name__', '__qualname__', '__module__', '__doc__'):
                    r = join(r, const(o.name) if name == '__name__' else STR)
                    continue
                m = self.class_lookup(o, name)
                if isinstance(m, V):
                    rr = BOT
                    for f in m.o:
                        if isinstance(f, Func) and f.kindf == 'class':
                            rr = join(rr, obj(T('bound', obj(o), f)))
                        elif isinstance(f, Func) and f.kindf == 'property':
                            rr = join(rr, obj(T('propobj', f)))
                        elif isinstance(f, Func) and f.kindf == 'static':
                            rr = join(rr, obj(Func(f.node, f.mod, f.qual, f.clo, f.cls, 'plain', f.defaults)))
                        else:
                            rr = join(rr, obj(f))
                    if m.top or m.c:
                        rr = join(rr, V(c=m.c, top=m.top, kind=m.kind, own=m.own, lab=m.lab))
                    r = join(r, rr)
                elif isinstance(m, Ext):
                    r = join(r, obj(T('xcls', m.name, name, o)))
                elif name == 'apply' and any(isinstance(b, Ext) and b.name == 'torch.autograd.Function' for b in o.mro()):
                    r = join(r, obj(T('fnapply', o)))
                elif any(isinstance(b, Ext) and not self.ext.closed_base(b.name) for b in o.mro()) or name.startswith('__'):
                    r = join(r, TOP)
                else:
                    if not quiet:
                        self.raise_('AttributeError', st, fr)
            elif isinstance(o, Mod):
                r = join(r, self.mod_attr(o, name, st, fr, node))
            elif isinstance(o, Ext):
                self.h.ext_attr(self, o, name, node, fr)
                if o.name.split('.')[0] in self.p.absent:
                    self.emit('absent-use', node, fr, 'uses %s.%s of absent package' % (o.name, name), key=(o.name, name))
                r = join(r, self.ext.ext_value(o.name + '.' + name).addlab(v.lab))
            elif isinstance(o, T) and o.tag == 'super':
                cls, sv = o.a
                for so in sv.o:
                    if isinstance(so, Ref):
                        h = self.hget(st, so)
                        if h is not None and isinstance(h.cls, Cls):
                            r = join(r, self.load_inst(so, h, name, v, st, fr, node, after=cls, quiet=quiet))
                    elif isinstance(so, Cls):
                        m = self.class_lookup(so, name, cls)
                        if isinstance(m, V):
                            r = join(r, self.bind_method(m, sv, so))
            elif isinstance(o, T) and o.tag == 'propobj' and name in ('setter', 'getter', 'deleter'):
                r = join(r, obj(T('setter')))
            elif isinstance(o, Func):
                if o.kindf == 'property' and name in ('setter', 'getter', 'deleter'):
                    r = join(r, obj(T('setter')))
                elif name == 'py_func':
                    r = join(r, obj(o))
                else:
                    r = join(r, TOP)
            elif isinstance(o, T) and o.tag == 'typeof':
                r = join(r, STR if name.startswith('__') else TOP)
            elif isinstance(o, T) and o.tag == 'partial' and name in ('func', 'args', 'keywords'):
                r = join(r, o.a[0] if name == 'func' else TOP)
            elif isinstance(o, T) and o.tag == 'tuple':
                r = join(r, obj(T('xmeth', V(o=frozenset([o]), lab=v.lab), name)))
            elif isinstance(o, T) and o.tag == 'excinst':
                r = join(r, TOP)
            else:
                r = join(r, obj(T('xmeth', V(o=frozenset([o]), lab=v.lab, own=v.own), name)))
        if v.top:
            r = join(r, self.ext.data_attr(self, V(top=True, kind=v.kind, own=v.own, lab=v.lab), name, st, fr, node))
        cs = v.c - {ABSENT}
        if cs:
            nn = frozenset(x for x in cs if x != NONE)
            if nn:
                r = join(r, obj(T('xmeth', V(c=nn, lab=v.lab), name)))
            elif not v.o and not v.top:
                if not quiet:
                    self.h.ext_attr(self, None, name, node, fr)
                    self.raise_('AttributeError', st, fr)
        if r.bottom and not quiet:
            if v.bottom:
                return TOP
            raise Dead()
        return r

    def mod_attr(self, o, name, st, fr, node):
        env = self.module(o.name)
        v = env.get(name)
        if v is not None:
            return v
        sub = o.name + '.' + name
        if sub in self.p.trees:
            self.load_module(sub)
            return obj(Mod(sub))
        if name in ('__version__', '__file__', '__name__', '__doc__', '__path__'):
            return STR
        self.emit('module-attr-missing', node, fr, 'module %s has no attribute %s' % (o.name, name), key=(o.name, name))
        self.raise_('AttributeError', st, fr)
        return BOT

    def setattr_(self, base, name, v, st, fr, node):
        n = len(base.o) + (1 if base.top else 0)
        for o in base.o:
            if isinstance(o, Ref):
                h = self.hget(st, o)
                if h is None:
                    continue
                if h.kind == 'inst':
                    m = self.class_lookup(h.cls, name) if isinstance(h.cls, Cls) else None
                    if isinstance(m, V) and any(isinstance(f, Func) and f.kindf == 'setter' for f in m.o):
                        for f in m.o:
                            if isinstance(f, Func) and f.kindf == 'setter':
                                self.call_func(f, Args([obj(o), v]), node, st, fr)
                        continue
                    nv = self.h.attr_store(self, o, h, name, v, node, fr)
                    if nv is None:
                        nv = v
                    h = self.hget(st, o)
                    if n > 1 and name in h.fields:
                        nv = join(h.fields[name], nv)
                    self.hset(st, o, h.set(name, nv))
                    if h.own:
                        self.h.write(self, h.own, node, fr, 'attribute assignment .' + name, base)
            elif isinstance(o, Mod):
                self.emit('global-write', node, fr, 'assigns module attribute %s.%s' % (o.name, name), key=(o.name, name))
        if base.top and base.own:
            self.h.write(self, base.own, node, fr, 'attribute assignment .' + name, base)

    def delattr_(self, base, name, st, fr, node):
        for o in base.o:
            if isinstance(o, Ref):
                h = self.hget(st, o)
                if h is not None and h.kind == 'inst':
                    self.h.attr_store(self, o, h, name, ABSENTV, node, fr)
                    self.hset(st, o, self.hget(st, o).set(name, ABSENTV))
                    if h.own:
                        self.h.write(self, h.own, node, fr, 'del attribute .' + name, base)

    # ------------------------------------------------------------ conditions
    def truth(self, v, st):
        """(may be true, may be false)"""
        t = f = False
        for tag, x in v.c:
            if tag == 'absent':
                continue
            if x:
                t = True
            else:
                f = True
        for o in v.o:
            if isinstance(o, Ref):
                h = self.hget(st, o)
                if h is not None and h.kind in ('list', 'dict', 'set'):
                    present = [x for x in h.fields.values() if ABSENT not in x.c]
                    if present:
                        t = True
                    elif h.elem is None and not h.fields:
                        f = True
                    else:
                        t = f = True
                else:
                    t = True
            elif isinstance(o, T) and o.tag == 'tuple':
                if o.a[0]:
                    t = True
                else:
                    f = True
            else:
                t = True
        if v.top:
            t = f = True
        if not t and not f:
            t = f = True
        return t, f

    def cond(self, e, st, fr):
        """evaluate a test: returns (state if true or None, state if false or None)"""
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                cur = st
                fout = None
                for x in e.values:
                    if cur is None:
                        break
                    t, f = self.cond_safe(x, cur, fr)
                    fout = join_state(fout, f)
                    cur = t
                return cur, fout
            cur = st
            tout = None
            for x in e.values:
                if cur is None:
                    break
                t, f = self.cond_safe(x, cur, fr)
                tout = join_state(tout, t)
                cur = f
            return tout, cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st, fr)
            return f, t
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            return self.cond_compare(e, st, fr)
        if isinstance(e, ast.Call):
            return self.cond_call(e, st, fr)
        v = self.ev(e, st, fr)
        return self.split_truth(e, v, st, fr)

    def split_truth(self, e, v, st, fr):
        self.h.test(self, v, e, fr, st)
        t, f = self.truth(v, st)
        ts = st.copy() if t else None
        fs = st.copy() if f else None
        self.h.assume(self, v, ts, fs)
        if t and f:
            tv = v.with_(c=frozenset(x for x in v.c if x[0] == 'absent' or x[1]))
            fv = v.with_(c=frozenset(x for x in v.c if x[0] == 'absent' or not x[1]),
                         o=frozenset(o for o in v.o if self.truth(V(o=frozenset([o])), st)[1]))
            self.refine(e, tv, ts, fr)
            if not fv.bottom:
                self.refine(e, fv, fs, fr)
            self.refine_empty(e, fs, fr)
        return ts, fs

    def refine_empty(self, e, st, fr):
        """the collection e is known to be empty in st"""
        if not isinstance(e, ast.Name) or st is None or e.id not in st.env or e.id in self.mutated_names(getattr(fr, 'node', None)):
            return
        x = st.env[e.id]
        hs = [self.hget(st, o) if isinstance(o, Ref) else None for o in x.o]
        if hs and not x.top and not x.c and all(h is not None and h.kind == 'list' for h in hs):
            st.env = dict(st.env)
            st.env[e.id] = self.new_list([], None, st, fr, e)

    def mutated_names(self, fn):
        """names whose object the function changes in place (or may: unknown function)"""
        r = self.stores_cache.get(('mut', id(fn)))
        if r is None:
            r = set()
            for n in ast.walk(fn) if isinstance(fn, ast.AST) else ():
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in (
                        'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'appendleft', 'add'):
                    r.add(n.func.value.id)
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and not isinstance(n.ctx, ast.Load):
                    r.add(n.value.id)
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    r.add(n.target.id)
            self.stores_cache[('mut', id(fn))] = r
        return r

    def empty_test(self, e, ts, fs, fr):
        """len(x) <op> constant"""
        if len(e.ops) != 1:
            return
        a, op, b = e.left, type(e.ops[0]), e.comparators[0]
        if isinstance(a, ast.Constant):
            a, b = b, a
            op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op)
        if not (isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'len' and len(a.args) == 1 and
                isinstance(b, ast.Constant) and type(b.value) is int):
            return
        k = (op, b.value)
        if k in ((ast.Eq, 0), (ast.LtE, 0), (ast.Lt, 1)):
            self.refine_empty(a.args[0], ts, fr)
        if k in ((ast.NotEq, 0), (ast.Gt, 0), (ast.GtE, 1)):
            self.refine_empty(a.args[0], fs, fr)

    def refine(self, e, nv, st, fr):
        """the expression e is known to have value nv in st"""
        if nv.bottom:
            return
        if isinstance(e, ast.Name):
            if e.id in st.env:
                st.env = dict(st.env)
                st.env[e.id] = nv
        elif isinstance(e, ast.NamedExpr):
            self.refine(e.target, nv, st, fr)
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            b = st.env.get(e.value.id)
            if b is not None and len(b.o) == 1 and not b.top:
                (o,) = b.o
                if isinstance(o, Ref):
                    h = self.hget(st, o)
                    if h is not None and h.kind == 'inst' and e.attr in h.fields:
                        self.hset(st, o, h.set(e.attr, nv))

    def cond_compare(self, e, st, fr):
        op = e.ops[0]
        l = self.ev(e.left, st, fr)
        r = self.ev(e.comparators[0], st, fr)
        self.h.compare(self, type(op), l, r, e, fr, st)
        k = self.h.compare_val(self, type(op), l, r, st)
        if k is not None:
            return (st, None) if k else (None, st)
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            ident = isinstance(op, (ast.Is, ast.IsNot))
            t, f, lt, lf, rt, rf = self.eq_split(l, r, ident, st)
            ts = st.copy() if t else None
            fs = st.copy() if f else None
            if ts is not None:
                if lt is not None:
                    self.refine(e.left, lt, ts, fr)
                if rt is not None:
                    self.refine(e.comparators[0], rt, ts, fr)
            if fs is not None:
                if lf is not None:
                    self.refine(e.left, lf, fs, fr)
                if rf is not None:
                    self.refine(e.comparators[0], rf, fs, fr)
            r2 = (fs, ts) if neg else (ts, fs)
            if ts is not None and fs is not None:
                self.empty_test(e, r2[0], r2[1], fr)
            return r2
        if isinstance(op, (ast.In, ast.NotIn)):
            t, f, lt, lf = self.in_split(l, r, st, fr, e)
            ts = st.copy() if t else None
            fs = st.copy() if f else None
            if ts is not None and lt is not None:
                self.refine(e.left, lt, ts, fr)
            if fs is not None and lf is not None:
                self.refine(e.left, lf, fs, fr)
            return (fs, ts) if neg else (ts, fs)
        v = self.compare(op, l, r, st, fr)
        self.h.test(self, v, e, fr, st)
        t, f = self.truth(v, st)
        ts, fs = (st.copy() if t else None), (st.copy() if f else None)
        if t and f:
            self.empty_test(e, ts, fs, fr)
        return ts, fs

    def eq_split(self, l, r, ident, st):
        lc = l.c - {ABSENT}
        rc = r.c - {ABSENT}
        lt = lf = rt = rf = None
        simple_r = not r.top and not r.o and len(rc) == 1
        simple_l = not l.top and not l.o and len(lc) == 1
        if simple_r:
            (k,) = rc
            same = frozenset(x for x in lc if x == k or (not ident and x[1] == k[1]))
            t = bool(same)
            if l.top and not (ident and k == NONE) and not (k == NONE):
                t = True
            # objects never equal constants
            f = bool(lc - same) or bool(l.o) or l.top
            if t:
                if same or not l.top:
                    lt = l.with_(c=same or frozenset([k]), o=E, top=False)
                    if l.top and k != NONE:
                        lt = l.with_(c=frozenset([k]), o=E, top=False)
                else:
                    lt = l.with_(c=frozenset([k]), o=E, top=False)
            if f:
                lf = l.with_(c=lc - same)
            return t, f, lt, lf, None, None
        if simple_l:
            t, f, a, b, _, _ = self.eq_split(r, l, ident, st)
            return t, f, None, None, a, b
        # object identity
        if not l.top and not r.top:
            inter_c = lc & rc
            inter_o = l.o & r.o
            t = bool(inter_c or inter_o)
            f = True
            if len(l.o) + len(lc) == 1 and len(r.o) + len(rc) == 1 and t:
                (x,) = (l.o or [None])
                if x is not None and isinstance(x, (Ext, Mod, Func, Cls)):
                    f = False
                if lc:
                    f = False
            if not t:
                # tuples / heap objects may still be equal
                if any(isinstance(o, (Ref, T)) for o in l.o) and any(isinstance(o, (Ref, T)) for o in r.o):
                    t = True
                if not ident and any(isinstance(o, T) for o in l.o | r.o):
                    t = True
            return t, f, None, None, None, None
        return True, True, None, None, None, None

    def in_split(self, l, r, st, fr, node):
        """l in r"""
        known = None
        if not r.top and len(r.o) == 1 and not r.c:
            (o,) = r.o
            seq = self.key_seq(o, st)
            if seq is not None:
                known = seq
        elif r.top and r.kind.startswith('str:') and not r.o and not l.top and not l.o and l.c and all(
                isinstance(a, str) for a in l.consts) and all(isinstance(b, str) for b in r.consts):
            t = f = False
            words = r.kind[4:].split(',')
            for a in l.consts:
                if a in ('numpy', 'torch'):
                    if a in words:
                        t = True
                    else:
                        f = True
                else:
                    t = f = True
                for b in r.consts:
                    if a in b:
                        t = True
                    else:
                        f = True
            return t, f, None, None
        elif not r.top and not r.o and r.c:
            # substring test
            if not l.top and not l.o and l.c:
                t = f = False
                for a in l.consts:
                    for b in r.consts:
                        try:
                            if a in b:
                                t = True
                            else:
                                f = True
                        except TypeError:
                            t = f = True
                return t, f, None, None
        if known is None:
            return True, True, None, None
        kc = set()
        opaque = False
        for k in known:
            if k.top or k.o:
                opaque = True
            kc |= set(k.c - {ABSENT})
        maybe = any(ABSENT in k.c for k in known)
        lc = l.c - {ABSENT}
        hit = frozenset(x for x in lc if any(x == y or x[1] == y[1] and x[0] in 'ifb' and y[0] in 'ifb' for y in kc))
        lo_hit = False
        for o in l.o:
            if any(o in k.o for k in known):
                lo_hit = True
        t = bool(hit) or lo_hit or (l.top and bool(known)) or (opaque and bool(known))
        f = bool(lc - hit) or bool(l.o) or l.top or maybe or opaque and not hit
        if not known:
            t, f = False, True
        lt = lf = None
        if l.top and not opaque and not l.o:
            lt = l.with_(c=frozenset(kc), top=False)
        elif hit and (lc - hit):
            lt = l.with_(c=hit)
        if lc - hit and hit and not maybe:
            lf = l.with_(c=lc - hit)
        return t, f, lt, lf

    def cond_call(self, e, st, fr):
        # isinstance(x, T) / hasattr(...) / callable refine
        v = self.ev(e, st, fr)
        t, f = self.truth(v, st)
        ts = st.copy() if t else None
        fs = st.copy() if f else None
        self.h.assume(self, v, ts, fs)
        if t and f and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1:
            self.refine_empty(e.args[0], fs, fr)
        if t and f and isinstance(e.func, ast.Name) and e.func.id == 'hasattr' and len(e.args) == 2:
            try:
                x = self.ev(e.args[0], st.copy(), fr)
                nm = self.ev(e.args[1], st.copy(), fr)
            except Dead:
                return ts, fs
            ok, k = nm.single_const()
            if ok and not x.top and len(x.o) == 1:
                (o,) = x.o
                h = self.hget(st, o) if isinstance(o, Ref) else None
                if h is not None and h.kind == 'inst' and k in h.fields and ABSENT in h.fields[k].c:
                    g = h.fields[k]
                    self.hset(ts, o, h.set(k, g.with_(c=g.c - {ABSENT})))
                    self.hset(fs, o, h.set(k, ABSENTV))
        if t and f and isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and len(e.args) == 2:
            try:
                x = self.ev(e.args[0], st.copy(), fr)
                cl = self.ev(e.args[1], st.copy(), fr)
            except Dead:
                return ts, fs
            a, b = self.ext.isinstance_split(self, x, cl, st)
            if a is not None and not a.bottom:
                self.refine(e.args[0], a, ts, fr)
            if b is not None and not b.bottom:
                self.refine(e.args[0], b, fs, fr)
        return ts, fs

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return TOP
        try:
            return m(e, st, fr)
        except (Dead, AnalysisBroken, RecursionError):
            raise
        except Exception as x:
            self.internal(x, e, fr)
            return TOP

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def e_Name(self, e, st, fr):
        return self.name_value(e, st, fr)

    def name_value(self, e, st, fr):
        n = e.id
        v = st.env.get(n)
        if v is not None:
            if ABSENT in v.c:
                rest = v.with_(c=v.c - {ABSENT})
                if rest.bottom:
                    if n in fr.clo:
                        return fr.clo[n]
                    self.h.name_unbound(self, n, e, fr, False)
                    self.raise_('NameError', st, fr)
                    raise Dead()
                self.h.name_unbound(self, n, e, fr, True)
                return rest
            return v
        v = fr.clo.get(n)
        if v is not None:
            if ABSENT in v.c:
                v = v.with_(c=v.c - {ABSENT})
            if not v.bottom:
                return v
        env = self.menv.get(fr.mod)
        if env is not None and n in env:
            v = env[n]
            if ABSENT in v.c:
                rest = v.with_(c=v.c - {ABSENT})
                if rest.bottom:
                    self.h.name_unbound(self, n, e, fr, False)
                    self.raise_('NameError', st, fr)
                    raise Dead()
                self.h.name_unbound(self, n, e, fr, True)
                return rest
            return v
        if hasattr(builtins, n) or n in ('__file__', '__name__'):
            if n in ('True', 'False', 'None'):
                return const({'True': True, 'False': False, 'None': None}[n])
            return obj(Ext('builtins.' + n))
        self.h.name_unbound(self, n, e, fr, False)
        self.raise_('NameError', st, fr)
        raise Dead()

    def e_Attribute(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        return self.getattr_(b, e.attr, st, fr, e)

    def e_Tuple(self, e, st, fr):
        vs = []
        unknown = None
        for x in e.elts:
            if isinstance(x, ast.Starred):
                sv = self.ev(x.value, st, fr)
                seq = self.known_seq(sv, st, fr)
                if seq is not None:
                    vs.extend(seq)
                else:
                    el = self.elem_of(sv, st, fr, x)
                    unknown = join(unknown, el)
            else:
                vs.append(self.ev(x, st, fr))
        if unknown is not None:
            return self.new_list(None, join_all(vs + [unknown]), st, fr, e)
        return obj(T('tuple', tuple(vs)))

    def e_List(self, e, st, fr):
        vs = []
        unknown = None
        for x in e.elts:
            if isinstance(x, ast.Starred):
                sv = self.ev(x.value, st, fr)
                seq = self.known_seq(sv, st, fr)
                if seq is not None:
                    vs.extend(seq)
                else:
                    unknown = join(unknown, self.elem_of(sv, st, fr, x))
            else:
                vs.append(self.ev(x, st, fr))
        if unknown is not None:
            return self.new_list(None, join_all(vs + [unknown]), st, fr, e)
        return self.new_list(vs, None, st, fr, e)

    def e_Set(self, e, st, fr):
        vs = [self.ev(x, st, fr) for x in e.elts]
        return self.new_list(vs, None, st, fr, e, 'set')

    def e_Dict(self, e, st, fr):
        fields = {}
        elem = None
        for k, x in zip(e.keys, e.values):
            if k is None:
                dv = self.ev(x, st, fr)
                f2, el2 = self.dict_items(dv, st)
                for kk, vv in f2.items():
                    fields[kk] = vv
                if el2 is not None:
                    fields = {a: join(b, el2) for a, b in fields.items()}
                    elem = join(elem, el2)
                continue
            kv = self.ev(k, st, fr)
            xv = self.ev(x, st, fr)
            ok, kc = kv.single_const()
            if ok:
                fields[kc] = xv
            else:
                elem = join(elem, xv.addlab(kv.lab))
                if not kv.top and kv.o:
                    # object keys: remember them
                    for o in kv.o:
                        fields[('obj', o)] = xv
                    elem = None if elem == xv else elem
        return self.new_dict(fields, elem, st, fr, e)

    def dict_items(self, dv, st):
        """(known key -> V, V of unknown entries or None) of a dict-like value"""
        fields = {}
        elem = None
        n = 0
        for o in dv.o:
            if isinstance(o, Ref):
                h = self.hget(st, o)
                if h is not None and h.kind == 'dict':
                    n += 1
                    if n == 1:
                        fields = dict(h.fields)
                    else:
                        for k in set(fields) | set(h.fields):
                            fields[k] = join(fields.get(k, ABSENTV), h.fields.get(k, ABSENTV))
                    if h.elem is not None:
                        elem = join(elem, h.elem)
                    if h.own or dv.lab:
                        fields = {k: x.addlab(dv.lab) for k, x in fields.items()}
                    continue
                if h is not None and h.kind == 'inst':
                    elem = join(elem, TOP)
                    continue
            if isinstance(o, T) and o.tag == 'vars':
                h = self.hget(st, o.a[0])
                if h is not None:
                    fields.update(h.fields)
                    continue
            elem = join(elem, top(lab=dv.lab))
        if dv.top:
            elem = join(elem, top(own=dv.own, lab=dv.lab))
            if n:
                fields = {k: join(x, ABSENTV) for k, x in fields.items()}
        return fields, elem

    def e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        i = self.ev(e.slice, st, fr)
        return self.h.index(self, b, i, self.subscript(b, i, e, st, fr), e, fr, st)

    def e_Slice(self, e, st, fr):
        vs = [self.ev(x, st, fr) if x is not None else NONEV for x in (e.lower, e.upper, e.step)]
        labs = E
        for v in vs:
            labs |= v.lab
        return V(o=frozenset([T('slice', *vs)]), lab=labs)

    def e_Index(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def subscript(self, b, i, node, st, fr):
        r = BOT
        ilab = i.lab
        ok, k = i.single_const()
        isslice = [o for o in i.o if isinstance(o, T) and o.tag == 'slice']
        for o in b.o:
            if isinstance(o, T) and o.tag == 'tuple':
                seq = o.a[0]
                if ok and isinstance(k, int) and -len(seq) <= k < len(seq):
                    r = join(r, seq[k].addlab(b.lab))
                elif isslice and len(isslice) == 1:
                    s = self.const_slice(isslice[0])
                    if s is not None:
                        r = join(r, V(o=frozenset([T('tuple', seq[s])]), lab=b.lab))
                    else:
                        r = join(r, self.new_list(None, join_all(seq), st, fr, node))
                elif ok and isinstance(k, int):
                    self.raise_('IndexError', st, fr)
                else:
                    r = join(r, join_all(seq).addlab(b.lab | ilab))
            elif isinstance(o, Ref):
                h = self.hget(st, o)
                if h is None:
                    r = join(r, top(lab=b.lab | ilab))
                    continue
                if h.kind == 'dict':
                    r = join(r, self.dict_get(h, i, st, fr, node, b.lab))
                elif h.kind in ('list', 'set', 'gen'):
                    if isslice and len(isslice) == 1:
                        s = self.const_slice(isslice[0])
                        if s is not None and h.elem is None:
                            seq = [h.fields[x] for x in sorted(h.fields)]
                            r = join(r, self.new_list(seq[s], None, st, fr, node, lab=b.lab))
                        else:
                            hs = self.summarise(h)
                            r = join(r, self.new_list(None, hs.elem if hs.elem is not None else BOT, st, fr, node, lab=b.lab | ilab))
                    elif ok and isinstance(k, int) and h.elem is None:
                        n = len(h.fields)
                        kk = k + n if k < 0 else k
                        if kk in h.fields:
                            r = join(r, h.fields[kk].addlab(b.lab))
                        else:
                            self.raise_('IndexError', st, fr)
                    else:
                        if ok and k in h.fields and ABSENT not in h.fields[k].c:
                            r = join(r, h.fields[k].addlab(b.lab))
                        else:
                            hs = self.summarise(h)
                            if hs.elem is not None:
                                x = hs.elem
                                if ABSENT in x.c:
                                    x = x.with_(c=x.c - {ABSENT})
                                r = join(r, x.addlab(b.lab | ilab))
                            else:
                                self.raise_('IndexError', st, fr)
                elif h.kind == 'inst' and isinstance(h.cls, Cls):
                    m = self.class_lookup(h.cls, '__getitem__')
                    if isinstance(m, V):
                        r = join(r, self.call_value(self.bind_method(m, obj(o), h.cls), Args([i]), node, st, fr))
                    else:
                        r = join(r, top(own=h.own, lab=b.lab | ilab))
                else:
                    r = join(r, top(lab=b.lab | ilab))
            elif isinstance(o, T) and o.tag == 'vars':
                if ok:
                    h = self.hget(st, o.a[0])
                    if h is not None and k in h.fields:
                        r = join(r, h.fields[k])
                    else:
                        self.raise_('KeyError', st, fr)
            else:
                r = join(r, top(lab=b.lab | ilab))
        if b.top:
            r = join(r, self.ext.data_subscript(self, b, i, node, st, fr))
        cs = b.c - {ABSENT, NONE}
        for t, x in cs:
            if ok or isslice:
                try:
                    if ok:
                        r = join(r, const(x[k], b.lab))
                    else:
                        s = self.const_slice(isslice[0])
                        r = join(r, const(x[s], b.lab) if s is not None else STR)
                    continue
                except Exception:
                    pass
            r = join(r, top('str' if t == 's' else 'any', lab=b.lab))
        if r.bottom:
            if b.bottom:
                return TOP
            raise Dead()
        return r

    @staticmethod
    def const_slice(t):
        vals = []
        for v in t.a:
            ok, k = v.single_const()
            if not ok:
                return None
            vals.append(k)
        try:
            return slice(*vals)
        except Exception:
            return None

    def dict_get(self, h, i, st, fr, node, lab, default=None, may_raise=True):
        """value of key i in dict object h"""
        self.h.key(self, h, i, node, fr, st)
        r = BOT
        miss = False
        if i.top:
            for k, x in h.fields.items():
                r = join(r, x.with_(c=x.c - {ABSENT}).addlab(i.lab | lab))
            miss = True
            if h.elem is not None:
                r = join(r, h.elem.addlab(i.lab | lab))
        for t, k in i.c:
            if t == 'absent':
                continue
            if k in h.fields:
                x = h.fields[k]
                if ABSENT in x.c:
                    miss = True
                    x = x.with_(c=x.c - {ABSENT})
                r = join(r, x.addlab(i.lab | lab))
            else:
                miss = True
                if h.elem is not None:
                    r = join(r, h.elem.addlab(i.lab | lab))
        for o in i.o:
            if ('obj', o) in h.fields:
                r = join(r, h.fields[('obj', o)].addlab(i.lab | lab))
            else:
                miss = True
                if h.elem is not None:
                    r = join(r, h.elem.addlab(i.lab | lab))
        if miss:
            if default is not None:
                r = join(r, default)
            elif may_raise:
                self.raise_('KeyError', st, fr)
        return r

    # sequences
    def seq_of_obj(self, o, st, v):
        if isinstance(o, T) and o.tag == 'tuple':
            return list(o.a[0])
        if isinstance(o, Ref):
            h = self.hget(st, o)
            if h is not None and h.kind == 'list' and h.elem is None and not any(ABSENT in x.c for x in h.fields.values()):
                return [h.fields[k] for k in sorted(h.fields)]
        return None

    def key_seq(self, o, st):
        """elements an `in` test / iteration over o ranges over, if completely known"""
        if isinstance(o, T) and o.tag == 'tuple':
            return list(o.a[0])
        if isinstance(o, T) and o.tag == 'vars':
            h = self.hget(st, o.a[0])
            if h is not None:
                r = []
                for k, x in h.fields.items():
                    kv = const(k)
                    if ABSENT in x.c:
                        if x.with_(c=x.c - {ABSENT}).bottom:
                            continue
                        kv = join(kv, ABSENTV)
                    r.append(kv)
                return r
        if isinstance(o, Ref):
            h = self.hget(st, o)
            if h is None:
                return None
            if h.kind == 'dict' and h.elem is None:
                r = []
                for k, x in h.fields.items():
                    if isinstance(k, tuple) and len(k) == 2 and k[0] == 'obj':
                        kv = obj(k[1])
                    else:
                        kv = const(k)
                    if ABSENT in x.c:
                        if x.with_(c=x.c - {ABSENT}).bottom:
                            continue
                        kv = join(kv, ABSENTV)
                    r.append(kv)
                return r
            if h.kind in ('list', 'set') and h.elem is None:
                return [h.fields[k] for k in sorted(h.fields)]
        return None

    def known_seq(self, v, st, fr):
        """list of element values when v is exactly one completely known sequence"""
        if v.top or v.c or len(v.o) != 1:
            return None
        (o,) = v.o
        r = self.key_seq(o, st)
        if r is None:
            return None
        if self.track_order and isinstance(o, Ref) and len(r) > 1:
            r = [self.set_order(o, x, st) for x in r]
        if any(ABSENT in x.c for x in r):
            return None
        return [x.addlab(v.lab) for x in r]

    def elem_of(self, v, st, fr, node):
        """abstract element obtained by iterating v"""
        r = BOT
        for o in v.o:
            if isinstance(o, T) and o.tag == 'tuple':
                r = join(r, join_all(o.a[0]).addlab(v.lab))
            elif isinstance(o, T) and o.tag == 'vars':
                r = join(r, STR)
            elif isinstance(o, Ref):
                h = self.hget(st, o)
                if h is None:
                    r = join(r, top(lab=v.lab))
                elif h.kind == 'dict':
                    ks = join_all([const(k) if not (isinstance(k, tuple) and k and k[0] == 'obj') else obj(k[1]) for k in h.fields])
                    if h.elem is not None:
                        ks = join(ks, top(lab=h.elem.lab))
                    r = join(r, ks.addlab(v.lab))
                elif h.kind in ('list', 'set', 'gen'):
                    hs = self.summarise(h)
                    x = hs.elem if hs.elem is not None else BOT
                    if ABSENT in x.c:
                        x = x.with_(c=x.c - {ABSENT})
                    if self.track_order:
                        x = self.set_order(o, x, st)
                    r = join(r, x.addlab(v.lab))
                elif h.kind == 'inst' and isinstance(h.cls, Cls):
                    m = self.class_lookup(h.cls, '__iter__')
                    r = join(r, top(own=h.own, lab=v.lab))
                else:
                    r = join(r, top(own=h.own, lab=v.lab))
            else:
                r = join(r, top(lab=v.lab))
        if v.top:
            r = join(r, self.ext.data_elem(v))
        for t, x in v.c:
            if t == 's':
                r = join(r, STR)
        if r.bottom:
            r = V(top=True, lab=v.lab) if not v.o else BOT
        return r

    def from_ordered(self, x, labs):
        """attribute or bound method of an object picked in an unspecified order"""
        no = set()
        for o in x.o:
            if isinstance(o, T) and o.tag == 'bound' and isinstance(o.a[0], V):
                o = T('bound', o.a[0].addlab(labs), *o.a[1:])
            no.add(o)
        return x.with_(o=frozenset(no), lab=x.lab | labs)

    def set_order(self, o, x, st):
        """elements drawn from a set come in hash / identity order"""
        h = self.hget(st, o)
        if h is None or h.kind != 'set':
            return x
        if not x.top and not x.c and x.o and all(isinstance(y, T) and y.tag == 'tuple' and all(
                self.numeric(z) for z in y.a[0]) for y in x.o):
            return x        # hash order of numbers does not vary between runs
        if self.numeric(x):
            return x
        return x.addlab(frozenset([('setorder',)]))

    @staticmethod
    def numeric(x):
        return not x.o and (x.top and x.kind in ('num', 'int', 'bool') or not x.top and bool(x.c)) and \
            all(t in ('i', 'f', 'b', 'n') for t, _ in x.c)

    @staticmethod
    def known_dyn(v):
        return False

    def deep_labels(self, v, st, depth=4):
        labs = v.lab
        if depth <= 0:
            return labs
        for o in v.o:
            if isinstance(o, T):
                for a in o.a:
                    if isinstance(a, V):
                        labs = labs | self.deep_labels(a, st, depth - 1)
                    elif isinstance(a, tuple):
                        for x in a:
                            if isinstance(x, V):
                                labs = labs | self.deep_labels(x, st, depth - 1)
                            elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], V):
                                labs = labs | self.deep_labels(x[1], st, depth - 1)
            elif isinstance(o, Ref):
                h = self.hget(st, o)
                if h is not None and h.kind != 'inst':
                    labs = labs | h.lab
                    for x in h.fields.values():
                        labs = labs | self.deep_labels(x, st, depth - 1)
                    if h.elem is not None:
                        labs = labs | self.deep_labels(h.elem, st, depth - 1)
        return labs

    def deep_own(self, v, st, depth=3):
        own = v.own
        if depth <= 0:
            return own
        for o in v.o:
            if isinstance(o, T) and o.tag == 'tuple':
                for x in o.a[0]:
                    own = own | self.deep_own(x, st, depth - 1)
            elif isinstance(o, Ref):
                h = self.hget(st, o)
                if h is not None:
                    own = own | h.own
                    for x in h.fields.values():
                        own = own | self.deep_own(x, st, depth - 1)
                    if h.elem is not None:
                        own = own | self.deep_own(h.elem, st, depth - 1)
        return own

    # operators
    def e_BinOp(self, e, st, fr):
        l = self.ev(e.left, st, fr)
        r = self.ev(e.right, st, fr)
        return self.binop(type(e.op), l, r, st, fr, e)

    OPS = {
        ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
        ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
        ast.Pow: lambda a, b: a ** b, ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b,
        ast.BitXor: lambda a, b: a ^ b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
    }

    def binop(self, op, l, r, st, fr, node):
        return self.h.arith(self, op, (l, r), self.binop_(op, l, r, st, fr, node), node, fr, st)

    def binop_(self, op, l, r, st, fr, node):
        labs = self.deep_labels(l, st) | self.deep_labels(r, st)
        lc = [x for x in l.c if x[0] != 'absent']
        rc = [x for x in r.c if x[0] != 'absent']
        out = BOT
        if lc and rc and len(lc) * len(rc) <= 32 and op in self.OPS:
            for _, a in lc:
                for _, b in rc:
                    if a is None or b is None:
                        continue
                    try:
                        if op is ast.Pow and isinstance(b, (int, float)) and abs(b) > 64:
                            out = join(out, NUM)
                            continue
                        if op is ast.Mult and (isinstance(a, str) or isinstance(b, str)):
                            out = join(out, STR)
                            continue
                        out = join(out, const(self.OPS[op](a, b)))
                    except Exception:
                        out = join(out, V(top=True, kind='num' if not isinstance(a, str) else 'str'))
            if not l.top and not l.o and not r.top and not r.o:
                return out.addlab(labs) if not out.bottom else top(lab=labs)
        # sequences
        if op is ast.Add:
            ls = self.known_seq(l, st, fr)
            rs = self.known_seq(r, st, fr)
            lt = [o for o in l.o if isinstance(o, T) and o.tag == 'tuple']
            ll = [o for o in l.o if isinstance(o, Ref) and self.hget(st, o) is not None and self.hget(st, o).kind == 'list']
            rl = [o for o in r.o if isinstance(o, Ref) and self.hget(st, o) is not None and self.hget(st, o).kind == 'list']
            if ls is not None and rs is not None and (lt or ll):
                if lt:
                    return V(o=frozenset([T('tuple', tuple(ls + rs))]), lab=l.lab | r.lab)
                return self.new_list(ls + rs, None, st, fr, node, lab=l.lab | r.lab)
            if (ll or lt) and (rl or r.o or r.top) or (rl and not l.top):
                e = join(self.elem_of(l, st, fr, node), self.elem_of(r, st, fr, node))
                out = join(out, self.new_list(None, e, st, fr, node, lab=l.lab | r.lab))
                if not l.top:
                    return out
        if op is ast.Mult:
            for a, b in ((l, r), (r, l)):
                if any(isinstance(o, T) and o.tag == 'tuple' or isinstance(o, Ref) for o in a.o) and not a.top:
                    seq = self.known_seq(a, st, fr)
                    n = b.single_const()
                    if seq is not None and n[0] and isinstance(n[1], int) and 0 <= n[1] * len(seq) <= 16:
                        if any(isinstance(o, T) for o in a.o):
                            return V(o=frozenset([T('tuple', tuple(seq * n[1]))]), lab=labs)
                        return self.new_list(seq * n[1], None, st, fr, node)
                    hasarr = False
                    for o in a.o:
                        if isinstance(o, Ref):
                            h = self.hget(st, o)
                            if h is not None and h.kind != 'list':
                                hasarr = True
                    if not hasarr:
                        return self.new_list(None, self.elem_of(a, st, fr, node), st, fr, node, lab=labs)
        # program instances with operators
        kind = self.arith_kind(l, r)
        if op is ast.Mod and any(t == 's' for t, _ in l.c) and not l.top:
            kind = 'str'
        if op is ast.Add and ((l.kind.startswith('str') and l.top) or any(t == 's' for t, _ in l.c)) :
            kind = self.str_add(l, r)
        if l.top and l.kind == 'shape' or r.top and r.kind == 'shape':
            kind = 'shape' if op is ast.Add else kind
        return join(out, V(top=True, kind=kind, lab=labs))

    @staticmethod
    def str_add(l, r):
        # concatenation: which of the words numpy / torch can the result contain
        words = set()
        for v in (l, r):
            if v.top:
                if not v.kind.startswith('str:'):
                    return 'str'
                words.add(v.kind)
            for c in v.consts:
                if not isinstance(c, str):
                    return 'str'
                w = ','.join(x for x in ('numpy', 'torch') if x in c.lower())
                words.add('str:' + w)
        words.discard('str:')
        if len(words) > 1:
            return 'str'
        return words.pop() if words else 'str:'

    @staticmethod
    def arith_kind(l, r):
        ks = set()
        for v in (l, r):
            if v.top:
                ks.add(v.kind)
            for t, _ in v.c:
                if t in ('i', 'b'):
                    ks.add('int')
                elif t == 'f':
                    ks.add('num')
            if v.o:
                ks.add('any')
        if 'tt' in ks:
            return 'tt'
        if 'nd' in ks:
            return 'nd'
        if ks <= {'int', 'bool'}:
            return 'num' if not ks else 'int'
        if ks <= {'int', 'num', 'bool'}:
            return 'num'
        return 'any'

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        r = self.unop(e, v, st, fr)
        return r if isinstance(e.op, ast.Not) else self.h.arith(self, type(e.op), (v,), r, e, fr, st)

    def unop(self, e, v, st, fr):
        if isinstance(e.op, ast.Not):
            t, f = self.truth(v, st)
            c = set()
            if t:
                c.add(('b', False))
            if f:
                c.add(('b', True))
            return V(c=frozenset(c), lab=v.lab)
        out = BOT
        for t, x in v.c:
            if t == 'absent' or x is None:
                continue
            try:
                if isinstance(e.op, ast.USub):
                    out = join(out, const(-x))
                elif isinstance(e.op, ast.UAdd):
                    out = join(out, const(+x))
                else:
                    out = join(out, const(~x))
            except Exception:
                out = join(out, NUM)
        if v.top or v.o:
            out = join(out, V(top=True, kind=v.kind if v.top and v.kind in ('nd', 'tt', 'num', 'int') else 'any'))
        labs = self.deep_labels(v, st)
        return out.addlab(labs) if not out.bottom else top(lab=labs)

    def e_BoolOp(self, e, st, fr):
        # value semantics with short circuit
        out = BOT
        cur = st.copy()
        fin = None
        is_and = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            try:
                v = self.ev(x, cur, fr)
            except Dead:
                cur = None
                break
            if last:
                out = join(out, v)
                fin = join_state(fin, cur)
                cur = None
                break
            t, f = self.truth(v, cur)
            ts, fs = self.split_truth(x, v, cur, fr)
            if is_and:
                if f:
                    fv = v.with_(c=frozenset(c for c in v.c if c[0] == 'absent' or not c[1]), o=frozenset(
                        o for o in v.o if self.truth(V(o=frozenset([o])), cur)[1]))
                    out = join(out, fv)
                    fin = join_state(fin, fs)
                cur = ts
            else:
                if t:
                    tv = v.with_(c=frozenset(c for c in v.c if c[0] != 'absent' and c[1]))
                    out = join(out, tv)
                    fin = join_state(fin, ts)
                cur = fs
            if cur is None:
                break
        if fin is None:
            raise Dead()
        # keep env refinements out: evaluation does not assign
        st.heap = fin.heap
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                st.env = fin.env
                break
        return out

    def e_Compare(self, e, st, fr):
        l = self.ev(e.left, st, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, st, fr)
            self.h.compare(self, type(op), l, r, e, fr, st)
            k = self.h.compare_val(self, type(op), l, r, st)
            v = self.compare(op, l, r, st, fr) if k is None else const(k)
            if res is None:
                res = v
            else:
                t1, f1 = self.truth(res, st)
                t2, f2 = self.truth(v, st)
                cc = set()
                if t1 and t2:
                    cc.add(('b', True))
                if f1 or f2:
                    cc.add(('b', False))
                res = V(c=frozenset(cc), lab=res.lab | v.lab)
            l = r
        return res

    def compare(self, op, l, r, st, fr):
        labs = self.h.compare_lab(self.deep_labels(l, st) | self.deep_labels(r, st))
        if isinstance(op, (ast.Is, ast.IsNot)):
            t, f = self.eq_split(l, r, True, st)[:2]
            if isinstance(op, ast.IsNot):
                t, f = f, t
            return self.boolv(t, f, labs)
        if isinstance(op, (ast.In, ast.NotIn)):
            t, f = self.in_split(l, r, st, fr, None)[:2]
            if isinstance(op, ast.NotIn):
                t, f = f, t
            return self.boolv(t, f, labs)
        scalar = not (l.top and l.kind not in ('num', 'int', 'str', 'bool')) and not (r.top and r.kind not in ('num', 'int', 'str', 'bool'))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            # a comparison with a string or None, or between known scalars, is a boolean
            rc_str = not r.top and not r.o and all(t in ('s', 'n') for t, _ in r.c) and r.c
            lc_str = not l.top and not l.o and all(t in ('s', 'n') for t, _ in l.c) and l.c
            if scalar or rc_str or lc_str:
                t, f = self.eq_split(l, r, False, st)[:2]
                if isinstance(op, ast.NotEq):
                    t, f = f, t
                return self.boolv(t, f, labs)
            return V(top=True, kind=self.arr_of(l, r), lab=labs)
        lc = [x[1] for x in l.c if x[0] in ('i', 'f', 'b')]
        rc = [x[1] for x in r.c if x[0] in ('i', 'f', 'b')]
        if not l.top and not l.o and not r.top and not r.o and lc and rc and len(lc) == len(l.c) and len(rc) == len(r.c):
            t = f = False
            for a in lc:
                for b in rc:
                    x = {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
                    if x:
                        t = True
                    else:
                        f = True
            return self.boolv(t, f, labs)
        if scalar:
            return V(top=True, kind='bool', lab=labs)
        return V(top=True, kind=self.arr_of(l, r), lab=labs)

    @staticmethod
    def arr_of(l, r):
        for k in ('tt', 'nd'):
            if (l.top and l.kind == k) or (r.top and r.kind == k):
                return k
        return 'cmp'

    @staticmethod
    def boolv(t, f, labs=E):
        c = set()
        if t:
            c.add(('b', True))
        if f:
            c.add(('b', False))
        return V(c=frozenset(c), lab=labs)

    def e_IfExp(self, e, st, fr):
        t, f = self.cond(e.test, st, fr)
        out = BOT
        heap = None
        for branch, s in ((e.body, t), (e.orelse, f)):
            if s is None:
                continue
            try:
                v = self.ev(branch, s, fr)
            except Dead:
                continue
            out = join(out, v)
            heap = join_heap(heap, s.heap)
        if heap is None:
            raise Dead()
        st.heap = heap
        return out

    def e_Lambda(self, e, st, fr):
        return self.make_func(e, st, fr, '<lambda>')

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr, e)
        return v

    def e_JoinedStr(self, e, st, fr):
        parts = []
        labs = E
        known = True
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, st, fr)
                labs |= self.deep_labels(v, st)
                ok, k = v.single_const()
                if ok and x.format_spec is None and x.conversion == -1:
                    parts.append(str(k))
                else:
                    known = False
        if known:
            return const(''.join(parts), labs)
        return top('str', lab=labs)

    def e_FormattedValue(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        return top('str', lab=v.lab)

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else NONEV
        if fr.yhook is not None:
            fr.yhook(st, v)
            return NONEV
        fr.yields = join(fr.yields, v)
        fr.yst = join_state(fr.yst, st.copy())
        return V(c=frozenset([NONE]), top=True)

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        fr.yields = join(fr.yields, self.elem_of(v, st, fr, e))
        fr.yst = join_state(fr.yst, st.copy())
        return TOP

    # comprehensions
    def comp(self, e, st, fr, kind):
        saved = st.env
        heap_in = st.heap
        results = []
        fr.in_loop += 1
        known = [None]
        try:
            out = self.comp_gen(e, 0, st, fr, kind)
        finally:
            fr.in_loop -= 1
        st.env = saved
        return out

    def comp_gen(self, e, gi, st, fr, kind):
        """returns (list of known element values or None, joined element)"""
        if gi == len(e.generators):
            if kind == 'dict':
                k = self.ev(e.key, st, fr)
                v = self.ev(e.value, st, fr)
                return [(k, v)], v
            v = self.ev(e.elt, st, fr)
            return [v], v
        g = e.generators[gi]
        itv = self.ev(g.iter, st, fr)
        self.h.iterate(self, itv, g.iter, fr, st)
        seq = self.known_seq(itv, st, fr)
        if seq is not None and self.unrollable(seq):
            known = []
            joined = BOT
            env0 = st.env
            for x in seq:
                s = State(st.env, st.heap)
                self.assign(g.target, x, s, fr, e)
                maybe = False
                for c in g.ifs:
                    t, f = self.cond(c, s, fr)
                    if t is None:
                        s = None
                        break
                    if f is not None:
                        maybe = True
                    s = t
                if s is None:
                    continue
                try:
                    k, j = self.comp_gen(e, gi + 1, s, fr, kind)
                except Dead:
                    continue
                joined = join(joined, j)
                st.heap = join_heap(st.heap, s.heap) if maybe else s.heap
                if known is not None and k is not None:
                    if maybe:
                        if kind == 'dict':
                            known.extend((a, join(b, ABSENTV)) for a, b in k)
                        else:
                            known = None
                    else:
                        known.extend(k)
                else:
                    known = None
            return known, joined
        el = self.elem_of(itv, st, fr, e)
        joined = BOT
        cur = st
        for it in range(6):
            s = State(cur.env, cur.heap)
            try:
                self.assign(g.target, el, s, fr, e)
                for c in g.ifs:
                    t, f = self.cond(c, s, fr)
                    if t is None:
                        raise Dead()
                    s = t
                k, j = self.comp_gen(e, gi + 1, s, fr, kind)
            except Dead:
                if it == 0 and self.for_once and not g.ifs:
                    raise
                break
            joined2 = join(joined, j)
            nh = join_heap(cur.heap, s.heap)
            stable = nh == cur.heap and joined2 == joined
            joined = joined2
            cur = State(cur.env, nh)
            if stable:
                break
        st.heap = cur.heap
        self._lastkeys = None
        return None, joined

    def e_ListComp(self, e, st, fr):
        known, joined = self.comp(e, st, fr, 'list')
        if known is not None:
            return self.new_list(known, None, st, fr, e)
        return self.new_list(None, joined, st, fr, e)

    def e_GeneratorExp(self, e, st, fr):
        return self.e_ListComp(e, st, fr)

    def e_SetComp(self, e, st, fr):
        known, joined = self.comp(e, st, fr, 'set')
        return self.new_list(None, joined, st, fr, e, 'set')

    def e_DictComp(self, e, st, fr):
        known, joined = self.comp(e, st, fr, 'dict')
        if known is not None:
            fields = {}
            elem = None
            for k, v in known:
                ok, kc = k.single_const()
                if ok:
                    fields[kc] = v
                else:
                    elem = join(elem, v)
            return self.new_dict(fields, elem, st, fr, e)
        return self.new_dict({}, joined, st, fr, e)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env:
            return self.make_super(e, st, fr)
        fv = self.ev(e.func, st, fr)
        a = Args()
        for x in e.args:
            if isinstance(x, ast.Starred):
                sv = self.ev(x.value, st, fr)
                seq = self.known_seq(sv, st, fr)
                if seq is not None and a.star is None:
                    a.pos.extend(seq)
                else:
                    a.star = join(a.star, self.elem_of(sv, st, fr, x))
            else:
                v = self.ev(x, st, fr)
                if a.star is not None:
                    a.star = join(a.star, v)
                else:
                    a.pos.append(v)
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                f, el = self.dict_items(v, st)
                for kk, vv in f.items():
                    if isinstance(kk, str):
                        a.kw[kk] = vv
                if el is not None:
                    a.dstar = join(a.dstar, el)
            else:
                a.kw[k.arg] = v
        return self.call_value(fv, a, e, st, fr)

    def make_super(self, e, st, fr):
        if e.args and len(e.args) == 2:
            cv = self.ev(e.args[0], st, fr)
            sv = self.ev(e.args[1], st, fr)
            cl = [o for o in cv.o if isinstance(o, Cls)]
            if cl:
                return obj(T('super', cl[0], sv))
        cls = fr.func.cls if fr.func is not None else None
        selfv = None
        if fr.func is not None and fr.func.node.args.args:
            selfv = st.env.get(fr.func.node.args.args[0].arg)
        if selfv is None:
            selfv = fr.selfv
        if cls is None or selfv is None:
            return TOP
        return obj(T('super', cls, selfv))

    def call_value(self, fv, a, node, st, fr):
        self.stats['calls'] += 1
        alts = sorted(fv.o, key=repr) if len(fv.o) > 1 else list(fv.o)
        n = len(alts) + (1 if fv.top else 0)
        if n == 0:
            # calling a constant / nothing
            if fv.c:
                self.raise_('TypeError', st, fr)
                raise Dead()
            return top(lab=self.arg_labels(a, st))
        if n == 1 and alts:
            return self.call_obj(alts[0], fv, a, node, st, fr)
        out = BOT
        heap = None
        heap0 = st.heap
        for o in alts:
            s = State(st.env, heap0)
            try:
                v = self.call_obj(o, fv, a, node, s, fr)
            except Dead:
                continue
            out = join(out, v)
            heap = join_heap(heap, s.heap)
        if fv.top:
            s = State(st.env, heap0)
            v = self.ext.unknown_call(self, fv, a, node, s, fr)
            out = join(out, v)
            heap = join_heap(heap, s.heap)
        if heap is None:
            raise Dead()
        st.heap = heap
        return out

    def arg_labels(self, a, st):
        labs = E
        for v in a.all():
            labs = labs | self.deep_labels(v, st)
        return labs

    def call_obj(self, o, fv, a, node, st, fr):
        if isinstance(o, Func):
            return self.call_func(o, a, node, st, fr)
        if isinstance(o, T):
            if o.tag == 'bound':
                b = Args([o.a[0]] + a.pos, a.kw, a.star, a.dstar)
                return self.call_func(o.a[1], b, node, st, fr)
            if o.tag == 'partial':
                kws = dict(o.a[2])
                kws.update(a.kw)
                b = Args(list(o.a[1]) + a.pos, kws, a.star, a.dstar)
                return self.call_value(o.a[0], b, node, st, fr)
            if o.tag == 'delayed':
                return self.call_task(o, a, node, st, fr)
            if o.tag == 'deco':
                return a.pos[0] if a.pos else TOP
            if o.tag == 'xmeth':
                v = self.ext.ext_method(self, o.a[0], o.a[1], a, node, st, fr)
                return self.h.method_result(self, o.a[0], o.a[1], a, v, node, fr, st)
            if o.tag == 'cmeth':
                return self.ext.container_method(self, o.a[0], o.a[1], a, node, st, fr)
            if o.tag == 'xbase':
                return self.ext.base_method(self, o.a[0], o.a[1], o.a[2], a, node, st, fr)
            if o.tag == 'xcls':
                return self.ext.base_class_call(self, o, a, node, st, fr)
            if o.tag == 'fnapply':
                return self.autograd_apply(o.a[0], a, node, st, fr)
            if o.tag == 'parallel':
                return self.ext.parallel_call(self, o, a, node, st, fr)
            if o.tag == 'methodcaller':
                return TOP
            if o.tag == 'typeof':
                return self.ext.unknown_call(self, fv, a, node, st, fr)
            return self.ext.unknown_call(self, V(o=frozenset([o]), lab=fv.lab), a, node, st, fr)
        if isinstance(o, Cls):
            return self.instantiate(o, a, node, st, fr)
        if isinstance(o, Ext):
            self.stats['ext_calls'] += 1
            if o.name.split('.')[0] in self.p.absent:
                self.emit('absent-use', node, fr, 'calls %s of absent package' % o.name, key=o.name)
            if '.' in o.name and a.pos and self.ext.ext_class_has(*o.name.rsplit('.', 1)):
                # ExternalBase.method(self, ...)
                refs = [x for x in a.pos[0].o if isinstance(x, Ref)]
                if refs:
                    b = Args(a.pos[1:], a.kw, a.star, a.dstar)
                    cn, mn = o.name.rsplit('.', 1)
                    return self.ext.base_method(self, cn, mn, refs[0], b, node, st, fr)
            self.h.ext_call(self, o.name, a, node, fr, st)
            v = self.ext.ext_call(self, o.name, a, node, st, fr)
            r = self.h.ext_result(self, o.name, a, v, node, fr, st)
            return r
        if isinstance(o, Ref):
            h = self.hget(st, o)
            if h is not None and h.kind == 'inst' and isinstance(h.cls, Cls):
                m = self.class_lookup(h.cls, '__call__')
                if isinstance(m, V):
                    return self.call_value(self.bind_method(m, obj(o), h.cls), a, node, st, fr)
                if any(isinstance(b, Ext) and 'Module' in b.name for b in h.cls.mro()):
                    m = self.class_lookup(h.cls, 'forward')
                    if isinstance(m, V):
                        return self.call_value(self.bind_method(m, obj(o), h.cls), a, node, st, fr)
                if any(isinstance(b, Ext) and b.name.endswith('Layer') for b in h.cls.mro()):
                    m = self.class_lookup(h.cls, 'call')
                    if isinstance(m, V):
                        return self.call_value(self.bind_method(m, obj(o), h.cls), a, node, st, fr)
            return self.ext.unknown_call(self, fv, a, node, st, fr)
        return top(lab=self.arg_labels(a, st))

    def call_task(self, o, a, node, st, fr):
        """joblib.delayed(f)(args): runs f as a concurrent unit of work"""
        self.task += 1
        fr.accs.append(Acc())
        try:
            b = self.ext.mark_task_args(self, a, node, st, fr)
            r = self.call_value(self.ext.mark_task_env(self, o.a[0], st), b, node, st, fr)
            return self.ext.unmark_task(self, r, st)
        finally:
            acc = fr.accs.pop()
            for exc, s in acc.d.items():
                s = s.copy()
                self.ext.unmark_task(self, BOT, s)
                fr.accs[-1].add(exc, s)
            self.task -= 1

    def instantiate(self, c, a, node, st, fr):
        if any('Exception' in self.exc_bases(b.name if isinstance(b, Cls) else b.name.rsplit('.', 1)[-1])
               and (b.name.rsplit('.', 1)[-1].endswith(('Error', 'Exception', 'Warning')))
               for b in c.bases):
            return obj(T('excinst', c.name))
        h = HObj('inst', c, {}, None)
        before = st.heap
        ref = self.alloc(node, fr, st, h, 'inst:' + c.qual)
        m = self.class_lookup(c, '__init__')
        if isinstance(m, V):
            # an object whose constructor raised is unreachable afterwards
            fr.accs.append(Acc())
            try:
                self.call_value(self.bind_method(m, obj(ref), c), a, node, st, fr)
            finally:
                acc = fr.accs.pop()
                for exc, s in acc.d.items():
                    s = s.copy()
                    hp = dict(s.heap)
                    if ref.id in before:
                        hp[ref.id] = before[ref.id]
                    else:
                        hp.pop(ref.id, None)
                    s.heap = hp
                    fr.accs[-1].add(exc, s)
        elif isinstance(m, Ext):
            self.ext.base_method(self, m.name, '__init__', ref, a, node, st, fr)
        else:
            labs = self.arg_labels(a, st)
            if labs:
                hh = self.hget(st, ref)
                self.hset(st, ref, hh.with_(lab=hh.lab | labs))
        return obj(ref)

    def bind_args(self, f, a, node, st, fr):
        """bind call arguments; returns (dict, set of explicitly passed names) or None on mismatch"""
        args = f.node.args
        params = [x.arg for x in args.posonlyargs + args.args]
        kwonly = [x.arg for x in args.kwonlyargs]
        bound = {}
        explicit = set()
        why = None
        pos = list(a.pos)
        for i, p in enumerate(params):
            if i < len(pos):
                bound[p] = pos[i]
                explicit.add(p)
        extra = pos[len(params):]
        if extra and args.vararg is None:
            why = 'too many positional arguments (%d for %d)' % (len(pos), len(params))
        kwextra = {}
        for k, v in a.kw.items():
            if ABSENT in v.c:
                rest = v.with_(c=v.c - {ABSENT})
                if rest.bottom:
                    continue
                v = rest
                maybe = True
            else:
                maybe = False
            if k in params or k in kwonly:
                if k in bound and not maybe:
                    if k in explicit:
                        why = 'got multiple values for argument %s' % k
                    bound[k] = v
                else:
                    if maybe:
                        d = self.default_of(f, k)
                        if d is not None:
                            v = join(v, d)
                    bound[k] = v
                explicit.add(k)
            elif args.kwarg is not None:
                kwextra[k] = v if not maybe else join(v, ABSENTV)
            else:
                if not maybe:
                    why = 'unexpected keyword argument %s' % k
        star = a.star
        dstar = a.dstar
        for p in params + kwonly:
            if p in bound:
                continue
            d = self.default_of(f, p)
            v = d
            if star is not None and p in params and params.index(p) >= len(pos):
                v = join(v, star)
                explicit.add(p)
            if dstar is not None:
                v = join(v, dstar)
                explicit.add(p)
            if v is None:
                why = why or 'missing argument %s' % p
                v = TOP
            bound[p] = v
        if args.vararg is not None:
            if star is not None:
                bound[args.vararg.arg] = ('list', extra, star)
            else:
                bound[args.vararg.arg] = obj(T('tuple', tuple(extra)))
        if args.kwarg is not None:
            bound[args.kwarg.arg] = ('dict', kwextra, dstar)
        return bound, explicit, why

    def default_of(self, f, name):
        args = f.node.args
        params = [x.arg for x in args.posonlyargs + args.args]
        pd, kd = f.defaults if f.defaults else ((), ())
        if name in params:
            i = params.index(name) - (len(params) - len(pd))
            if 0 <= i < len(pd):
                return pd[i]
            return None
        for k, v in kd:
            if k == name:
                return v
        return None

    def reach(self, vals, st):
        """heap part reachable from the values: dict id -> HObj"""
        seen = {}
        todo = list(vals)
        while todo:
            v = todo.pop()
            if isinstance(v, V):
                for o in v.o:
                    if isinstance(o, Ref):
                        if o.id not in seen:
                            h = st.heap.get(o.id)
                            if h is None:
                                continue
                            seen[o.id] = h
                            todo.extend(h.fields.values())
                            if h.elem is not None:
                                todo.append(h.elem)
                    elif isinstance(o, T):
                        todo.extend(o.a)
                    elif isinstance(o, Func):
                        for _, x in o.clo:
                            todo.append(x)
            elif isinstance(v, (tuple, frozenset)):
                todo.extend(v)
            elif isinstance(v, Ref):
                todo.append(V(o=frozenset([v])))
            elif isinstance(v, T):
                todo.extend(v.a)
            elif isinstance(v, Func):
                for _, x in v.clo:
                    todo.append(x)
        return seen

    def call_func(self, f, a, node, st, fr):
        r = self.bind_args(f, a, node, st, fr)
        bound, explicit, why = r
        if why is not None:
            self.h.call_bad(self, f, why, node, fr)
            self.raise_('TypeError', st, fr)
            raise Dead()
        ctxnode = node
        env = {}
        for k, v in bound.items():
            if isinstance(v, tuple):
                if v[0] == 'list':
                    env[k] = self.new_list(None, join_all(list(v[1]) + [v[2]]), st, fr, node)
                else:
                    rid = (f.mod, f.node.lineno, 0, 'kwargs', getattr(node, 'lineno', 0))
                    ref = Ref(rid)
                    self.hset(st, ref, HObj('dict', None, dict(v[1]), v[2]))
                    env[k] = V(o=frozenset([ref]))
            else:
                env[k] = v
        self.h.call(self, f, env, explicit, node, fr, st)
        if f.kindf == 'ctx':
            return obj(T('ctxgen', f, tuple(sorted(env.items()))))
        self.stats['functions'].add(f.qual)
        # recursion
        key = (f, frozenset(env.items()), self.task > 0 or self.gradoff, self.reach_key(list(env.values()) + [v for _, v in f.clo], st))
        if key in self.memo:
            m = self.memo[key]
            if m is not None:
                self.stats['memo_hits'] += 1
                return self.apply_memo(m, node, st, fr)
        depth = sum(1 for x in self.stack if x[0].node is f.node)
        if any(x == key for x in self.stack):
            self.rec_hit = getattr(self, 'rec_hit', 0) + 1
            raise Dead()
        if depth >= 4 or len(self.stack) > self.max_depth:
            labs = self.arg_labels(a, st)
            return top(lab=labs)
        self.stack.append(key)
        rec0 = getattr(self, 'rec_hit', 0)
        self.events.append({})
        heap_in = st.heap
        g = Frame(f, f.mod, f.qual, fr, node)
        g.node = f.node
        g.clo = dict(f.clo)
        g.cls = f.cls
        gst = State(env, st.heap)
        try:
            if isinstance(f.node, ast.Lambda):
                try:
                    rv = self.ev(f.node.body, gst, g)
                    ret, out = rv, gst
                except Dead:
                    ret, out = None, None
            else:
                end = self.exec_block(f.node.body, gst, g)
                ret = g.ret
                out = g.retst
                if end is not None:
                    ret = join(ret, NONEV)
                    out = join_state(out, end)
                if self.is_gen(f.node):
                    ret = None
                    out = join_state(out, g.yst)      # the consumer may stop after any yield
                    if out is not None:
                        s2 = State(out.env, out.heap)
                        ret = self.new_list(None, g.yields if g.yields is not None else BOT, s2, g, f.node, 'list')
                        out = s2
        finally:
            self.stack.pop()
            evs = self.events.pop()
        oh = out.heap if out is not None else None
        if ret is not None:
            ret = self.h.func_result(self, f, env, ret, node, fr) or ret
        delta = self.heap_delta(heap_in, oh) if oh is not None else None
        raises = {exc: self.heap_delta(heap_in, s.heap) for exc, s in g.accs[0].d.items()}
        m = (ret, delta, raises, evs)
        # results computed under an unfinished recursion are not reusable
        if getattr(self, 'rec_hit', 0) == rec0 or not self.stack:
            self.memo[key] = m
        return self.apply_memo(m, node, st, fr)

    def is_gen(self, node):
        r = self.stores_cache.get(('gen', id(node)))
        if r is None:
            r = False
            todo = list(node.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                todo.extend(ast.iter_child_nodes(n))
            self.stores_cache[('gen', id(node))] = r
        return r

    def reach_key(self, vals, st):
        seen = self.reach(list(vals) + [p for p in self.pins if p.id in st.heap], st)
        return frozenset(seen.items())

    @staticmethod
    def heap_delta(a, b):
        if a is b:
            return {}
        return {k: h for k, h in b.items() if a.get(k) is not h}

    def apply_memo(self, m, node, st, fr):
        ret, delta, raises, evs = m
        if evs:
            site = (fr.mod, getattr(node, 'lineno', 0), fr.qual)
            cur = self.events[-1]
            for i, e in evs.items():
                if i not in cur:
                    if len(e.chain) < 12:
                        e = Event(e.rule, e.mod, e.line, e.func, e.msg, e.key, (site,) + e.chain, e.data)
                    cur[i] = e
        heap_in = st.heap
        for exc, d in raises.items():
            if d:
                hh = dict(heap_in)
                hh.update(d)
                s = State(st.env, hh)
            else:
                s = State(st.env, heap_in)
            if exc == '*':
                if self.implicit_raise:
                    fr.accs[-1].add('*', s)
            else:
                fr.accs[-1].add(exc, s)
        if ret is None:
            raise Dead()
        if delta:
            hh = dict(heap_in)
            hh.update(delta)
            st.heap = hh
        return ret

    # ------------------------------------------------------------ entry runs
    def run_function(self, fv, args, kwargs, heap=None, node=None):
        """abstractly call fv; returns (ret V or None, State or None, raises dict)"""
        st = State({}, heap if heap is not None else self.gheap)
        fr = Frame(None, '<entry>', '<entry>')
        fr.node = node
        n = node or ast.parse('0').body[0]
        try:
            r = self.call_value(fv, Args(args, kwargs), n, st, fr)
        except Dead:
            return None, None, fr.accs[0].d
        return r, st, fr.accs[0].d
