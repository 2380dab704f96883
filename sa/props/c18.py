"""C18: files and temporary directories are released, deletions are confined.

Typestate: every call that opens a file, archive or HDF5 file or makes a
temporary file or directory creates an abstract resource in state `open`.
with-statements, close(), cleanup(), rmtree / remove of the resource itself (also
from helper functions, context managers and finally blocks) move it to `closed`.
Every public function, constructor and method is executed abstractly, any
external call may raise; at every exit, normal or exceptional, no resource may
possibly be open, unless the caller receives it.

Confinement: paths are tracked as strings relative to symbolic roots. The
methods of the dataset classes are executed with ordinary and hostile strings
(empty, '.', '..', absolute, nested) for their arguments; the library's own path
operations and comparisons are folded. Whatever is handed to a deleting or
renaming call must be a temporary the library made, or lie strictly below the
cache directory (the directories the constructor creates)."""
import posixpath
from pathlib import PurePosixPath

from ..common import *
from ..ext import alloc_res

RULE = ('at every exit of a public callable (any external call may raise) no opened file, archive or temporary directory is still open; '
        'every deleted path is a temporary of the library or lies strictly below the cache directory, for ordinary and hostile names')

WITNESS = ['GunPoint', '', '.', '..', '/etc', '/root/precious/', '../sibling', 'a/../..', 'a/..', '~', 'GunPoint/../..']
ROOT = '/CACHE-ROOT'
LISTED = frozenset([('listed', 'GunPoint')])    # a name read from the downloaded list: an ordinary one (hostile names: WITNESS)
DELETES = {'shutil.rmtree': (0,), 'os.remove': (0,), 'os.unlink': (0,), 'os.rmdir': (0,), 'os.removedirs': (0,), 'shutil.move': (0, 1),
           'os.rename': (0, 1), 'os.replace': (0, 1), 'os.renames': (0, 1)}
FIRST = {'path', 'src', 'name', 'fn', 'file'}
P_DELETES = {'unlink', 'rmdir', 'rename', 'replace'}
OPENERS = {'urllib.request.urlopen': 'file', 'codecs.open': 'file', 'tempfile.SpooledTemporaryFile': 'file', 'numpy.memmap': 'file'}
PATHS = {'pathlib.Path', 'pathlib.PurePath', 'pathlib.PosixPath', 'pathlib.PurePosixPath'}


def temp_token(ref):
    return '/tmp/<%s>' % (ref.id[1] if isinstance(ref.id, tuple) and len(ref.id) > 1 else 'tmp')


def plab(s):
    return frozenset([('path', s)])


def path_v(ss, lab=E):
    keep = frozenset(l for l in lab if l[0] not in ('path', 'exists'))
    return V(top=True, kind='path', lab=keep | frozenset(('path', s) for s in ss))


class H(Hooks):
    made = None         # path strings of directories created
    cache = None

    # ---- what a value may be as a path: set of strings, None = unknown
    def strs(self, ip, v, st):
        r = set()
        for t, k in v.c:
            r.add(k if t == 's' else None) if t not in ('absent', 'n') else None
        for o in v.o:
            h = ip.hget(st, o) if isinstance(o, Ref) else None
            r.add(temp_token(o) if h is not None and h.kind == 'res' and str(h.cls).startswith('temp') else None)
        if v.top:
            ps = {l[1] for l in v.lab if l[0] == 'path'} if v.kind == 'path' else {l[1] for l in v.lab if l[0] == 'listed'}
            r |= ps or {None}
        return r

    def join_paths(self, ip, vs, st, pure=True):
        cur = {''}
        for v in vs:
            nxt = set()
            for a in cur:
                for b in self.strs(ip, v, st):
                    if a is None and not (b is not None and b.startswith('/')) or b is None:
                        nxt.add(None)
                    else:
                        nxt.add(str(PurePosixPath(a or '', b)) if pure else posixpath.join(a or '', b))
            cur = nxt
        return cur

    def temps(self, ip, v, st):
        """resources the value denotes"""
        rs = {o for o in v.o if isinstance(o, Ref) and (ip.hget(st, o) or HObj('x', None)).kind == 'res'}
        toks = {s for s in self.strs(ip, v, st) if s and s.startswith('/tmp/<')}
        for i, h in st.heap.items():
            if h.kind == 'res' and temp_token(Ref(i)) in toks:
                rs.add(Ref(i))
        return rs

    def close(self, ip, v, st):
        for r in self.temps(ip, v, st):
            ip.hset(st, r, ip.hget(st, r).set('closed', const(True)))

    # ---- deletion
    def judge(self, ip, v, what, node, fr, st):
        ip.emit('delete', node, fr, what, key=(what, getattr(node, 'lineno', 0)))
        if any(isinstance(o, Ref) and (ip.hget(st, o) or HObj('x', None)).kind == 'res' and str(ip.hget(st, o).cls).startswith('temp') for o in v.o):
            if len(v.o) == 1 and not v.top:
                return
        for s in self.strs(ip, v, st):
            if s is None:
                ip.emit('escape', node, fr, '%s deletes a path not known to be inside the cache or a temporary directory' % what, key=(what, 'unknown'))
                continue
            n = posixpath.normpath(s)
            if any(x in n for x in ('/tmp/<',)) and n.startswith('/tmp/<'):
                continue
            ok = False
            for c in self.cache or ():
                cn = posixpath.normpath(c)
                if n.startswith(cn + '/'):
                    ok = True
            if not ok:
                ip.emit('escape', node, fr, '%s deletes %r, outside the cache directory' % (what, n), key=(what, n))

    def ext_call(self, ip, name, a, node, fr, st):
        if name in DELETES:
            vs = list(a.pos) + [v for k, v in a.kw.items() if k in ('path', 'src', 'dst', 'name', 'fn', 'file')]
            for i in DELETES[name]:
                if i < len(vs):
                    self.judge(ip, vs[i], name, node, fr, st)
            if vs:
                self.close(ip, vs[0], st)
        if name == 'os.close' and a.pos:
            self.close(ip, a.pos[0], st)
        if name in ('atexit.register', 'weakref.finalize'):
            for v in a.all():
                self.close(ip, v, st)
        if name in ('os.makedirs', 'os.mkdir') and a.pos and self.made is not None:
            self.made |= self.strs(ip, a.pos[0], st)

    def ext_method(self, ip, recv, name, a, node, fr, st):
        is_path = recv.kind == 'path' or any(l[0] == 'path' for l in recv.lab)
        if is_path:
            if name in P_DELETES and not (name == 'replace' and len(a.pos) == 2):
                self.judge(ip, recv, 'Path.' + name, node, fr, st)
                if name in ('rename', 'replace'):
                    for v in a.pos[:1]:
                        self.judge(ip, v, 'Path.' + name, node, fr, st)
                self.close(ip, recv, st)
            if name == 'mkdir' and self.made is not None:
                self.made |= self.strs(ip, recv, st)
        elif name in ('unlink', 'rmdir') and recv.top and recv.kind not in ('str', 'num', 'int', 'nd'):
            self.judge(ip, recv, 'Path.' + name, node, fr, st)
        if name in ('enter_context', 'callback', 'push'):
            for v in a.all():
                if isinstance(v, V):
                    self.close(ip, v, st)

    # ---- folding
    def ext_result(self, ip, name, a, v, node, fr, st):
        p = a.pos
        if name in OPENERS:
            return alloc_res(ip, OPENERS[name], a, node, st, fr, v.lab)
        if name in ('numpy.load',) and p and any(s and s.endswith('.npz') for s in self.strs(ip, p[0], st)):
            return alloc_res(ip, 'npz', a, node, st, fr, v.lab)
        if name in ('csv.DictReader', 'csv.reader'):
            return V(top=True, lab=v.lab | LISTED)
        if name == 'tempfile.mkstemp':
            return obj(T('tuple', (alloc_res(ip, 'fd', a, node, st, fr, v.lab), v)))
        if name == 'tempfile.gettempdir':
            return path_v(['/tmp'])
        if name in PATHS:
            return path_v(self.join_paths(ip, p, st), v.lab)
        if name in ('pathlib.Path.home', 'pathlib.Path.cwd', 'os.getcwd', 'os.path.expanduser'):
            return path_v(['/home/user'] if name != 'os.path.expanduser' else {None if s is None else s.replace('~', '/home/user', 1) if s.startswith('~') else s
                                                                              for s in self.strs(ip, p[0], st)} if p else [None])
        if name in ('builtins.str', 'os.fspath', 'os.fsdecode') and p:
            ss = self.strs(ip, p[0], st)
            if p[0].kind == 'path' or ss and None not in ss and p[0].o:
                return path_v(ss, v.lab) if None in ss else V(c=frozenset(('s', s) for s in ss), lab=frozenset(l for l in v.lab if l[0] != 'path'))
        if name == 'os.path.join':
            return path_v(self.join_paths(ip, p, st, False), v.lab)
        if name in ('os.path.normpath', 'os.path.abspath', 'os.path.realpath') and p:
            return path_v({None if s is None else posixpath.normpath(s if s.startswith('/') else '/home/user/' + s if name != 'os.path.normpath' else s)
                           for s in self.strs(ip, p[0], st)}, v.lab)
        if name in ('os.path.basename', 'os.path.dirname', 'os.path.splitext', 'os.path.split', 'os.path.isabs', 'os.path.commonpath', 'os.path.relpath') and p:
            f = getattr(posixpath, name.rsplit('.', 1)[1])
            args = [self.strs(ip, x, st) for x in p]
            if name == 'os.path.commonpath':
                seq = ip.known_seq(p[0], st, fr)
                args = [self.strs(ip, x, st) for x in seq] if seq is not None else [{None}]
            if all(len(x) == 1 and None not in x for x in args):
                xs = [next(iter(x)) for x in args]
                try:
                    return self.lift(ip, f(xs) if name == 'os.path.commonpath' else f(*xs), st, fr, node)
                except ValueError:
                    ip.raise_('ValueError', st, fr)
                    raise Dead()
            return V(top=True, kind='bool' if 'isabs' in name else 'path', lab=v.lab if 'isabs' in name else plab(None))
        if name in ('os.path.exists', 'os.path.isdir', 'os.path.isfile', 'os.path.lexists') and p:
            return V(top=True, kind='bool', lab=frozenset(('exists', s) for s in self.strs(ip, p[0], st)))
        if name in ('builtins.any', 'builtins.all') and p:
            seq = ip.known_seq(p[0], st, fr)
            if seq is not None and all(x.single_const()[0] for x in seq):
                return const((any if name.endswith('any') else all)(x.single_const()[1] for x in seq))
        return v

    def lift(self, ip, x, st, fr, node):
        if isinstance(x, (str, bool, int)) or x is None:
            return const(x)
        if isinstance(x, PurePosixPath):
            return path_v([str(x)])
        if isinstance(x, (tuple, list)):
            vs = [self.lift(ip, y, st, fr, node) for y in x]
            return obj(T('tuple', tuple(vs))) if isinstance(x, tuple) else ip.new_list(vs, None, st, fr, node)
        return TOP

    def fold(self, ip, recv, f, st, fr, node):
        out = BOT
        for s in self.strs(ip, recv, st):
            if s is None:
                return None
            try:
                out = join(out, self.lift(ip, f(PurePosixPath(s)), st, fr, node))
            except (ValueError, TypeError):
                ip.raise_('ValueError', st, fr)
        if out.bottom:
            raise Dead()
        return out

    def attr_val(self, ip, v, name, st, fr, node):
        if v.kind != 'path':
            return None
        if name in ('name', 'stem', 'suffix', 'parent', 'parts', 'anchor', 'root', 'drive', 'suffixes'):
            r = self.fold(ip, v, lambda q: getattr(q, name), st, fr, node)
            return r if r is not None else path_v([None]) if name == 'parent' else STR
        if name == 'parents':
            r = self.fold(ip, v, lambda q: tuple(q.parents), st, fr, node)
            return r if r is not None else TOP
        return None

    def method_result(self, ip, recv, name, a, v, node, fr, st):
        if recv.kind == 'path':
            if name in ('exists', 'is_dir', 'is_file', 'is_symlink'):
                return V(top=True, kind='bool', lab=frozenset(('exists', s) for s in self.strs(ip, recv, st)))
            if name == 'open':
                return alloc_res(ip, 'file', a, node, st, fr, E)
            if name in ('joinpath',):
                return path_v(self.join_paths(ip, [recv] + list(a.pos), st))
            if name in ('resolve', 'absolute', 'expanduser'):
                return path_v({None if s is None else posixpath.normpath(s if s.startswith('/') else '/home/user/' + s) if name == 'resolve' else s
                               for s in self.strs(ip, recv, st)})
            if name in ('as_posix', '__str__', '__fspath__'):
                r = self.fold(ip, recv, lambda q: str(q), st, fr, node)
                return r if r is not None else STR
            if name in ('iterdir', 'glob', 'rglob'):
                return ip.new_list(None, path_v({None if s is None else s + '/<entry>' for s in self.strs(ip, recv, st)}), st, fr, node)
            if name in ('is_absolute', 'with_suffix', 'with_name', 'with_stem', 'relative_to', 'is_relative_to', 'match'):
                args = [self.strs(ip, x, st) for x in a.pos]
                if all(len(x) == 1 and None not in x for x in args):
                    xs = [next(iter(x)) for x in args]
                    r = self.fold(ip, recv, lambda q: getattr(q, name)(*xs), st, fr, node)
                    if r is not None:
                        return r
                if name in ('with_suffix', 'with_name') and len(a.pos) == 1 and None not in self.strs(ip, a.pos[0], st):
                    return path_v({'<unknown>/<unknown>' + s for s in self.strs(ip, a.pos[0], st)})
                return path_v([None]) if not name.startswith(('is_', 'match')) else V(top=True, kind='bool')
        if recv.kind != 'path' and not recv.top and not recv.o and recv.c and all(t == 's' for t, _ in recv.c) and \
                all(x.single_const()[0] for x in a.pos) and not a.kw and name in (
                'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper', 'startswith', 'endswith', 'find', 'count',
                'partition', 'rpartition', 'isalnum', 'isidentifier', 'isalpha', 'removeprefix', 'removesuffix', 'splitlines', 'index'):
            out = BOT
            for _, s in recv.c:
                try:
                    out = join(out, self.lift(ip, getattr(s, name)(*[x.single_const()[1] for x in a.pos]), st, fr, node))
                except (ValueError, TypeError):
                    ip.raise_('ValueError', st, fr)
            if out.bottom:
                raise Dead()
            return out
        if any(isinstance(o, Ref) and (ip.hget(st, o) or HObj('x', None)).kind == 'res' for o in recv.o) and name == 'open':
            return alloc_res(ip, 'file', a, node, st, fr, E)
        return v

    def arith(self, ip, op, args, v, node, fr, st):
        if op is ast.Div and len(args) == 2 and any(x.kind == 'path' for x in args):
            return path_v(self.join_paths(ip, args, st))
        if op is ast.Add and len(args) == 2 and any(x.kind == 'path' for x in args):
            out = set()
            for x in self.strs(ip, args[0], st):
                for y in self.strs(ip, args[1], st):
                    out.add(None if x is None or y is None else x + y)
            return path_v(out)
        return v

    def index(self, ip, b, i, r, node, fr, st):
        return r

    def compare_val(self, ip, op, l, r, st):
        if op in (ast.In, ast.NotIn):
            if l.kind != 'path':
                return None
            seq = ip.known_seq(r, st, Frame(None, '<q>', '<q>'))
            if seq is None:
                return None
            ks = [self.compare_val(ip, ast.Eq, l, x, st) for x in seq]
            if True in ks:
                return op is ast.In
            if None in ks:
                return None
            return op is ast.NotIn
        if op not in (ast.Eq, ast.NotEq):
            return None
        if l.kind != 'path' and r.kind != 'path':
            return None
        if l.kind != r.kind and not (l.c and not l.top) and not (r.c and not r.top):
            return None
        res = set()
        for x in self.strs(ip, l, st):
            for y in self.strs(ip, r, st):
                if x is None or y is None:
                    return None
                res.add(x == y)
        if len(res) != 1:
            return None
        (k,) = res
        return k if op is ast.Eq else not k

    def assume(self, ip, v, ts, fs):
        ps = {l[1] for l in v.lab if l[0] == 'exists'}
        if ps and fs is not None:
            for s in ps:
                if s and s.startswith('/tmp/<'):
                    self.close(ip, path_v([s]), fs)


def open_res(heap, base, ret=None, ip=None, st=None):
    mine = set()
    if ret is not None:
        mine = set(ip.reach([ret], st))
    for i, h in heap.items():
        if h.kind == 'res' and i not in base and i not in mine:
            c = h.fields.get('closed', TOP)
            if c.single_const() != (True, True):
                yield i, h


KINDS = {'file': 'file', 'h5': 'HDF5 file', 'zip': 'archive', 'tempdir': 'temporary directory', 'tempdirctx': 'temporary directory',
         'tempfile': 'temporary file', 'npz': 'archive', 'fd': 'file descriptor'}


def run(rep):
    hk = H()
    ip, cat = make(hk)
    ip.pins = []
    base = user_heap(ip.gheap, lambda p: E)
    sites = {}

    def judge(q, res, heap0):
        r, st, ex = res
        exits = [('returns', st.heap, r, st)] if st is not None else []
        exits += [('raises %s' % ('an exception' if e == '*' else e), s.heap, None, None) for e, s in ex.items()]
        for how, heap, ret, s in exits:
            rep.count('exits checked')
            for i, h in open_res(heap, heap0, ret, ip, s):
                k = '%s:%s:%s' % (h.cls, i[0], i[1]) if isinstance(i, tuple) else str(i)
                mod = i[0] if isinstance(i, tuple) else '?'
                line = i[1] if isinstance(i, tuple) else 0
                f = '%s:%s' % (ip.p.paths.get(mod, mod), line)
                sites.setdefault((h.cls, mod, fun_at(ip, mod, line)), {}).setdefault('%s %s' % (q, how), f)
        for e in ip.all_events():
            if e.rule == 'escape':
                rep.violation('delete:%s:%s' % (e.func, e.key[0]), '%s: %s' % (q, e.msg), where(ip, e), event_path(ip, e))
            elif e.rule == 'delete':
                rep.sample('deleting calls', '%s in %s' % (e.msg, e.func))
                dels.add((e.func, e.msg))
        for i in list(heap_res(exits)):
            opened.add(i[:2] if isinstance(i, tuple) else i)
        ip.clear_events()

    def heap_res(exits):
        for _, heap, _, _ in exits:
            for i, h in heap.items():
                if h.kind == 'res':
                    yield i

    dels, opened = set(), set()
    for q, e in sorted(cat.funcs.items()):
        kw = {p: param_value(p, ip.default_of(e.func, p), e.opts.get(p), E, E, None, typ=e.types.get(p)) for p in e.params}
        judge(q, ip.run_function(obj(e.func), [], kw, base, node=e.func.node), base)
        rep.count('public callables')
    ip.memo.clear()
    for q, c in sorted(cat.classes.items()):
        if c.name.startswith('_'):
            continue
        L = Life(ip, cat, c)
        data = '.datasets' in c.mod
        worlds = [None]
        if data:
            worlds = [dict(use_cache=const(u)) for u in (True, False)] if 'use_cache' in L.hyper else [{}]
        for w in worlds:
            hk.made = set()
            hk.cache = None
            vals = None
            if w is not None:
                vals = {p: L.hyper_value(p) for p in L.hyper}
                for p in L.hyper:
                    if p in w:
                        vals[p] = w[p]
                    elif 'dir' in p or 'path' in p or 'root' in p:
                        vals[p] = const(ROOT)
            f = cat.init_func(c)
            if f is None and data:
                pass
            r, h, ex = L.construct(base, vals)
            ip.clear_events()
            hk.cache = {s for s in hk.made if s and s.startswith(ROOT + '/')}
            if r is None or main_ref(r) is None:
                continue
            judge(q + '.__init__', (r, State({}, h), ex), base)
            rep.count('public callables')
            heap = h
            if L.has('fit') and not data:
                rr, st, ex = L.run('fit', r, h)
                judge(q + '.fit', (rr, st, ex), h)
                if st is not None:
                    heap = st.heap
            ms = cat.methods(c)
            for m, fn in sorted(ms.items()):
                if m in ('fit',):
                    continue
                if data:
                    req = [p for p in [x.arg for x in fn.node.args.args][1:]]
                    for s in (WITNESS if req else [None]):
                        kw = {p: const(s) for p in req} if s is not None else {}
                        for p in req:
                            d = ip.default_of(fn, p)
                            if d is not None and d.single_const()[0] and not isinstance(d.single_const()[1], str):
                                kw[p] = param_value(p, d, None)
                        judge('%s.%s(%s)' % (q, m, repr(s) if s is not None else ''),
                              ip.run_function(obj(T('bound', r, fn)), [], kw, heap, node=fn.node), heap)
                        rep.count('hostile or ordinary names' if s is not None else 'public callables')
                else:
                    judge('%s.%s' % (q, m), L.run(m, r, heap), heap)
                    rep.count('public callables')
        ip.memo.clear()
    for (kind, mod, fun), exits in sorted(sites.items()):
        f = sorted(exits.values())[0]
        ls = sorted(exits)
        rep.violation('leak:%s:%s' % (kind, fun), '%s: the %s opened here can be left open: %s%s' % (
            fun, KINDS.get(kind, kind), '; '.join(ls[:3]), ' and %d more exits' % (len(ls) - 3) if len(ls) > 3 else ''), f)
    rep.count('places that open a resource', len(opened))
    rep.count('places that delete', len(dels))
    rep.rule = RULE
    rep.floor('public callables', 300)
    rep.floor('places that open a resource', 6)
    rep.floor('hostile or ordinary names', 20)


def fun_at(ip, mod, line):
    best = None
    for n in ast.walk(ip.p.trees[mod]) if mod in ip.p.trees else ():
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.lineno <= line <= n.end_lineno:
            if best is None or n.lineno > best[0]:
                best = (n.lineno, n.name)
    return '%s.%s' % (mod, best[1] if best else '<module>')
