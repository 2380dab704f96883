"""C14: inference rejects data that does not have the fitted dimensions.

Every estimator is fitted abstractly, then each inference method is run in a
"mismatch world": the query dataset is a 3-D dataset whose number of features
differs from the training one (world `features`), or whose length differs
(world `length`, for the methods tied to the fitted length). Dimensions of the
query data are tracked through shape tuples, and a comparison between a
mismatching dimension of the query and a dimension that does not come from the
query is decided (they differ). Obligations, for every discrete configuration:
  reject    the method has no normal exit in that world;
  error     what it raises is ValueError;
  first     no operation combines the query data with fitted data before."""
from ..common import *

RULE = ('with query data whose dimensions differ from the fitted ones, no inference method returns, none combines that data with fitted data, '
        'and each can raise ValueError')

# functions and methods that keep the layout (samples, time, features) of a dataset
KEEP = {'array', 'asarray', 'ascontiguousarray', 'astype', 'copy', 'check_array', 'as_float_array', 'atleast_3d', 'nan_to_num', 'asanyarray',
        'to_time_series_dataset', 'check_dims', 'check_variable_length_input', 'float', 'double', 'cast', 'from_numpy', 'tensor', 'clone', 'detach',
        'to_numpy', 'deepcopy', 'validate_data', '_validate_data', 'where', 'round', 'to'}
# layouts of the query data: dataset (n, sz, d), flattened (n, sz * d), univariate 2-D (n, sz)
Q3, Q2, F = 'Q3', 'Q2', 'F'
QS = {Q3, Q2, 'Qu', 'Qx'}
WORLDS = {'features': ('q2', Q3, 'another number of features'), 'length': ('q1', Q3, 'another length'),
          'flat': ('q2', 'Qu', '2-D data although the model was fitted on several features')}

# what a query of the wrong length must not be accepted by: estimators whose model works on vectors of the fitted length
VECTOR = ('euclidean', 'sqeuclidean', 'cityblock')


# (class, method, world) -> why
EXEMPT = {('KNeighborsTimeSeries' + x, 'kneighbors', 'flat'): 'accepts flattened series, as scikit-learn does' for x in ('Classifier', 'Regressor')}


def fixed_length(c, cfg):
    """the model of this configuration is tied to the length of the training series"""
    val = lambda p: cfg[p].single_const()[1] if p in cfg and cfg[p].single_const()[0] else None
    if c.name.startswith('KNeighbors'):
        return val('metric') in VECTOR
    if c.name == 'TimeSeriesKMeans':
        return val('metric') == 'euclidean'
    if c.name.startswith('TimeSeriesSV'):
        return val('kernel') not in ('gak', 'precomputed', None)
    return c.name == 'KShape' or c.name.startswith('TimeSeriesMLP')


class H(Hooks):
    axis = None

    def shape_lab(self, lab):
        return frozenset(l for l in lab if l not in QS and l != F)

    def shape_val(self, ip, v, name):
        i = lambda *l: V(top=True, kind='int', lab=frozenset(l))
        if Q3 in v.lab:
            return const(3) if name == 'ndim' else obj(T('tuple', (i(), i('q1'), i('q2'))))
        if Q2 in v.lab:
            return const(2) if name == 'ndim' else obj(T('tuple', (i(), i('q1', 'q2'))))
        if 'Qu' in v.lab:
            return const(2) if name == 'ndim' else obj(T('tuple', (i(), i('q1'))))

    def compare_val(self, ip, op, l, r, st):
        if self.axis is None or op not in (ast.Eq, ast.NotEq):
            return None
        a, b = (self.axis in ip.deep_labels(x, st) for x in (l, r))
        if a == b:
            return None
        o = r if a else l
        if o.c and not o.o and not o.top:
            return None
        return op is ast.NotEq

    def fix(self, v, src, name, a):
        """labels of the result v of operation `name` on src"""
        if not {Q3, Q2, 'Qu'} & v.lab:
            return v
        s = set(v.lab)
        if name in ('reshape', 'view'):
            p = a.pos[-1] if len(a.pos) and any(isinstance(o, T) and o.tag == 'tuple' for o in a.pos[-1].o) else None
            seq = None
            if p is not None and len(p.o) == 1:
                (o,) = p.o
                seq = list(o.a[0])
            elif a.pos:
                seq = list(a.pos)
            if seq is not None and 'Qu' in s and len(seq) == 3 and seq[-1].single_const() == (True, 1):
                return v.with_(lab=frozenset(s - {'Qu'}) | {Q3})
            if seq is not None and Q3 in s:
                if 'q2' in seq[-1].lab:
                    return v if len(seq) == 3 else self.drop(v)
                if len(seq) == 2 and seq[-1].single_const() == (True, -1):
                    return v.with_(lab=frozenset(s - {Q3}) | {Q2})
            return self.drop(v)
        return v if name in KEEP else self.drop(v)

    def drop(self, v):
        return v.with_(lab=frozenset(l for l in v.lab if l not in (Q3, Q2, 'Qu'))) .addlab(frozenset(['Qx']))

    def ext_result(self, ip, name, a, v, node, fr, st):
        s = name.rsplit('.', 1)[-1]
        if s in ('shape', 'ndim') and a.pos:
            k = self.shape_val(ip, a.pos[0], s)
            if k is not None:
                return k
        if s in ('len', 'size', 'hasattr', 'isinstance'):
            return v.with_(lab=self.shape_lab(v.lab))
        if s == 'reshape' and len(a.pos) > 1:
            from ..interp import Args
            return self.fix(v, None, s, Args(a.pos[1:], a.kw, a.star, a.dstar))
        if s in ('array_equal', 'allclose') and len(a.pos) > 1:
            k = self.compare_val(ip, ast.Eq, a.pos[0], a.pos[1], st)
            if k is not None:
                return const(k)
        if name in ('builtins.any', 'builtins.all') and self.axis is not None and len(a.pos) == 1:
            # of the comparisons of the dimensions, element by element
            els = set()
            for o in a.pos[0].o:
                h = ip.hget(st, o) if isinstance(o, Ref) else None
                vs = [None] if h is None else list(h.fields.values()) + ([h.elem] if h.elem is not None else [])
                els |= {x.single_const()[1] if isinstance(x, V) and x.single_const()[0] else None for x in vs}
            if els == {s == 'any'}:
                return const(s == 'any')
        if s == 'expand_dims' and a.pos and 'Qu' in a.pos[0].lab:
            return v.with_(lab=frozenset(l for l in v.lab if l not in QS) | {Q3})
        return self.fix(v, None, s, a)

    def method_result(self, ip, recv, name, a, v, node, fr, st):
        return self.fix(v, recv, name, a)

    def index(self, ip, b, i, r, node, fr, st):
        if b.o and not b.top or not {Q3, Q2, 'Qu'} & r.lab:
            return r
        sl = node.slice
        el = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        new = [ast.unparse(x) in ('None', 'np.newaxis', 'numpy.newaxis') for x in el]
        plain = [isinstance(x, ast.Slice) or isinstance(x, ast.Constant) and x.value is Ellipsis for x in el]
        if 'Qu' in r.lab and new[-1] and all(plain[:-1]) and not any(new[:-1]):
            return r.with_(lab=frozenset(l for l in r.lab if l != 'Qu') | {Q3})
        if all(isinstance(x, ast.Slice) for x in el):
            if len(el) < 3 or not (el[2].lower or el[2].upper):
                return r
        return self.drop(r)

    def func_result(self, ip, f, bound, v, node, fr):
        if not isinstance(v, V) or f.name not in KEEP:
            return v
        add = set()
        for x in bound.values():
            if isinstance(x, V):
                add |= {l for l in x.lab if l in (Q3, Q2, 'Qu')}
        if 'Qu' in add and f.name in ('to_time_series_dataset', 'check_dims'):
            add.add(Q3)
        if Q3 in add and 'Qx' in v.lab or Q3 in v.lab:
            return v.with_(lab=frozenset(l for l in v.lab if l not in ('Qx', 'Qu'))).addlab(frozenset([Q3]))
        return v

    def joint(self, ip, vs, what, node, fr, st):
        if self.axis is None:
            return
        q = any(isinstance(v, V) and v.top and QS & v.lab for v in vs)
        if q and any(isinstance(v, V) and F in ip.deep_labels(v, st, 3) and not QS & v.lab for v in vs):
            ip.emit('joint', node, fr, '%s combines the data with fitted data' % what, key=what)

    def arith(self, ip, op, args, v, node, fr, st):
        self.joint(ip, args, 'an arithmetic operator', node, fr, st)
        return v

    def ext_call(self, ip, name, a, node, fr, st):
        if self.axis is not None and name == 'scipy.spatial.distance.cdist' and len(a.pos) > 1 and \
                any(Q2 in v.lab for v in a.pos[:2]) and any(F in v.lab and not QS & v.lab for v in a.pos[:2]):
            from ..interp import Dead
            ip.raise_('ValueError', st, fr)     # it compares the numbers of columns itself
            raise Dead()
        if not name.startswith(('builtins.', 'sklearn.utils.', 'warnings.')) and name.rsplit('.', 1)[-1] not in KEEP:
            self.joint(ip, list(a.pos) + list(a.kw.values()), '`%s`' % name, node, fr, st)

    def ext_method(self, ip, recv, name, a, node, fr, st):
        if name not in KEEP and name not in ('format',):
            self.joint(ip, [recv] + list(a.pos) + list(a.kw.values()), 'method `%s`' % name, node, fr, st)


def run(rep):
    hk = H()
    ip, cat = make(hk)
    heap0 = user_heap(ip.gheap, lambda p: E)
    for c in cat.estimators():
        L = Life(ip, cat, c)
        for cfg in configs(L):
            hk.axis = None
            ip.memo.clear()
            r, h, ex = L.construct(heap0, with_values(cfg, L))
            ref = main_ref(r) if r is not None else None
            if ref is None or not L.has('fit'):
                continue
            rr, st, ex = L.run('fit', r, h, lab=lambda p: frozenset([F]) if p == 'X' else E)
            ip.clear_events()
            if st is None:
                continue
            what = cfg_str(cfg)
            for m in L.queries():
                if cat.method(c, m) is None:
                    continue        # inherited from scikit-learn as it is
                for world, (ax, lay, msg) in sorted(WORLDS.items()):
                    if world == 'length' and not fixed_length(c, cfg) or 'precomputed' in what or (c.name, m, world) in EXEMPT:
                        continue
                    ip.memo.clear()
                    hk.axis = ax
                    kw = L.method_args(m)
                    if 'X' not in kw:
                        continue
                    kw['X'] = V(top=True, kind='nd', lab=frozenset([lay]))
                    rr, s2, ex = L.run(m, r, st.heap, kw=kw)
                    rep.count('inference runs on data that does not fit')
                    rep.sample('methods', '%s.%s' % (c.qual, m))
                    f = cat.method(c, m)
                    loc = '%s:%s' % (ip.p.paths.get(f.mod, f.mod), f.node.lineno)
                    entry = '%s.%s (%s) given %s' % (c.qual, m, what, msg)
                    if s2 is not None:
                        rep.violation('reject:%s:%s:%s' % (c.qual, m, world), '%s can return a result' % entry, loc)
                    elif 'ValueError' not in ex:
                        rep.violation('error:%s:%s:%s' % (c.qual, m, world), '%s does not raise ValueError but %s' % (
                            entry, ', '.join(sorted(str(x) for x in ex))), loc)
                    for e in ip.all_events():
                        if e.rule == 'joint':
                            rep.violation('first:%s:%s' % (e.func, e.key), '%s: %s before its dimensions are checked' % (entry, e.msg),
                                          where(ip, e), event_path(ip, e))
                    ip.clear_events()
    rep.rule = RULE
    rep.floor('inference runs on data that does not fit', 100)
