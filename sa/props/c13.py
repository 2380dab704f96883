"""C13: NaN padding never enters an elastic distance.

Every array argument that holds series, and every array filled with NaN, carries
the label ('pad', origin).  The label goes away where the padding is cut off:
indexing or slicing by something computed from isnan() of an array of the same
origin (directly, through a helper such as ts_size, or through a loop that tests
isnan), or picking single time stamps by two computed indices that do not come
from the padded length.  An arithmetic operator or a numeric library routine of
an elastic module that reads a value still carrying the label is a violation."""
import re

from ..common import *

RULE = 'no arithmetic of an elastic distance, kernel, alignment or barycenter reads a series whose NaN padding was not cut off'
SINKS = re.compile(r'tslearn\.(metrics\.(_dtw|_soft_dtw|soft_dtw_fast|softdtw_variants|_frechet|_gak|_lcss|dtw_variants|ctw|utils)|'
                   r'barycenters\.(dba|softdtw|utils))$')
SERIES = re.compile(r'^(s1|s2|ts\d?|X|Y|x|y|Z|dataset\d?|dataset_\w+|subseq|longseq|subsequence|init_barycenter|init|barycenter|time_series|sequence)$')
# reading these does not look at element values
NEUTRAL = {'isnan', 'isfinite', 'array', 'asarray', 'asanyarray', 'ascontiguousarray', 'reshape', 'cast', 'shape', 'ndim', 'empty_like',
           'zeros_like', 'ones_like', 'full_like', 'stack', 'vstack', 'hstack', 'concatenate', 'copy', 'to_numpy', 'full', 'len', 'range', 'enumerate', 'zip',
           'list', 'tuple', 'isinstance', 'all', 'any', 'iscomplex', 'check_array', 'from_numpy', 'tensor', 'as_tensor', 'clone',
           'is_tensor', 'hasattr', 'getattr', 'type', 'deepcopy', 'delayed', 'Parallel', 'expand_dims', 'squeeze', 'ravel', 'flatten',
           'transpose', 'swapaxes', 'permute', 'numpy', 'detach', 'cpu', 'to', 'size', 'dim', 'type_as', 'requires_grad_', 'contiguous',
           'view', 'float', 'double', 'astype', 'is_array', 'int', 'bool', 'str', 'print', 'id', 'append', 'extend', 'nanmean', 'nanmedian', 'nansum', 'nanmax', 'nanmin', 'isscalar', 'atleast_1d',
           'atleast_2d', 'atleast_3d', 'unsqueeze', 'repeat', 'tile', 'new_empty', 'new_zeros', 'broadcast_to', 'map', 'iter', 'next', 'reversed',
           'sorted', 'format', 'warn', 'empty', 'zeros', 'ones', 'set', 'dict', 'issubclass', 'callable', 'repr', 'check_random_state', 'choice',
           'permutation', 'shuffle', 'set_random_seed', 'is_floating_point', 'array_equal', 'vars', 'result_type', 'finfo', 'unique', 'save_for_backward',
           'tolist', 'element_size', 'numel', 'new_full', 'to_list', 'item'}
CREATE = {'zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'eye', 'arange', 'linspace', 'triu_indices',
          'tril_indices', 'identity', 'range'}
# a band or an envelope over time stamps given by the caller, not an elastic measure
EXEMPT = {'lb_keogh', 'lb_envelope'}


def pads(lab):
    return {x[1] for x in lab if isinstance(x, tuple) and x and x[0] == 'pad'}


def probes(lab):
    return {x[1] for x in lab if isinstance(x, tuple) and x and x[0] == 'probe'}


def unpad(v, names=None):
    l = frozenset(x for x in v.lab if not (isinstance(x, tuple) and x and x[0] == 'pad' and (names is None or x[1] in names)))
    return v.with_(lab=l) if l != v.lab else v


def deep(v):
    """labels of a value and of the parts of a slice or tuple"""
    l = v.lab
    for o in v.o:
        if isinstance(o, T) and o.tag == 'slice':
            for x in o.a:
                l |= deep(x)
        elif isinstance(o, T) and o.tag == 'tuple':
            for x in o.a[0]:
                l |= deep(x)
    return l


def arr(v):
    return v.top and v.kind in ('nd', 'tt', 'any')


def called(n):
    f = n.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''


_isnan = {}


def asks_nan(fn):
    """does the function test values for NaN itself"""
    if fn not in _isnan:
        _isnan[fn] = any(isinstance(x, ast.Call) and called(x) in ('isnan', 'isfinite') for x in ast.walk(fn))
    return _isnan[fn]


_loops = {}


def nan_counters(fn):
    """names assigned in loops or branches whose test asks for NaN"""
    if fn not in _loops:
        out = set()
        for s in ast.walk(fn):
            if isinstance(s, (ast.While, ast.If)) and any(isinstance(x, ast.Call) and called(x) in ('isnan', 'isfinite') for x in ast.walk(s.test)):
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out.add(x.id)
        _loops[fn] = out
    return _loops[fn]


_par = {}


def parents(fn):
    if fn not in _par:
        _par[fn] = {c: x for x in ast.walk(fn) for c in ast.iter_child_nodes(x)}
    return _par[fn]


def only_probed(node, fn, seen=()):
    """the value of this expression is only asked for NaN"""
    par = parents(fn)
    x = node
    while x in par:
        x = par[x]
        if isinstance(x, ast.Call) and called(x) in ('isnan', 'isfinite'):
            return True
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            n = x.targets[0].id
            if n in seen:
                return True
            uses = [y for y in ast.walk(fn) if isinstance(y, ast.Name) and y.id == n and isinstance(y.ctx, ast.Load)]
            return bool(uses) and all(only_probed(y, fn, seen + (n,)) for y in uses)
        if isinstance(x, ast.stmt):
            return False
    return False


class H(Hooks):
    def assume(self, ip, v, ts, fs):
        for tag, st in (('eqsize', ts), ('hasnan', fs)):
            p = {x[1] for x in v.lab if isinstance(x, tuple) and x and x[0] == tag}
            if not p or st is None:
                continue
            st.env = {k: unpad(x, p) if isinstance(x, V) else x for k, x in st.env.items()}

    def sink(self, ip, vs, what, node, fr):
        if not SINKS.match(fr.mod) or not any(arr(v) and pads(v.lab) for v in vs):
            return
        fn = getattr(fr.func, 'node', None)
        if isinstance(fn, ast.FunctionDef) and only_probed(node, fn):
            return
        for v in vs:
            if arr(v) and pads(v.lab):
                ip.emit('pad', node, fr, '%s reads a series whose NaN padding was not cut off' % what, key=what)
                return

    def arith(self, ip, op, args, v, node, fr, st):
        if op not in (ast.And, ast.Or, ast.Not, ast.Invert):
            self.sink(ip, args, 'an arithmetic operator', node, fr)
        return v

    def ext_call(self, ip, name, a, node, fr, st):
        s = name.rsplit('.', 1)[-1]
        if s not in NEUTRAL:
            self.sink(ip, list(a.pos) + list(a.kw.values()), '`%s`' % s, node, fr)

    def ext_method(self, ip, recv, name, a, node, fr, st):
        if name not in NEUTRAL:
            self.sink(ip, [recv] + list(a.pos) + list(a.kw.values()), '`%s`' % name, node, fr)

    def shape_lab(self, lab):
        return frozenset(x for x in lab if not (isinstance(x, tuple) and x and x[0] in ('pad', 'probe'))) | frozenset(('padlen', x) for x in pads(lab))

    def unknown_call(self, ip, fv, a, node, fr, st):
        # a distance function given by the caller
        if fr.mod.startswith(('tslearn.clustering', 'tslearn.neighbors', 'tslearn.metrics')) and not fv.o:
            for v in list(a.pos) + list(a.kw.values()):
                if arr(v) and pads(v.lab):
                    ip.emit('pad', node, fr, 'the distance function given by the caller is handed a series whose NaN padding was not cut off', key='callable')

    def ext_result(self, ip, name, a, v, node, fr, st):
        s = name.rsplit('.', 1)[-1]
        vs = list(a.pos) + list(a.kw.values())
        if s in ('isnan', 'isfinite'):
            p = set()
            for x in vs:
                p |= pads(x.lab)
            return unpad(v).addlab(frozenset(('probe', x) for x in p))
        if s in ('len', 'shape', 'ndim', 'size', 'array_equal'):
            return v.with_(lab=self.shape_lab(v.lab))
        if s in CREATE:
            # sizes do not matter, what is filled in does
            fill = frozenset(x for v_ in vs[1:] if v_.kind == 'num' for x in v_.lab if isinstance(x, tuple) and x and x[0] == 'pad')
            return v.with_(lab=frozenset(x for x in v.lab if not (isinstance(x, tuple) and x and x[0] in ('pad', 'probe'))) | fill)
        if s.startswith('nan'):
            return unpad(v)
        if s in ('float', 'float64') and any(t == 's' and str(k).lower() == 'nan' for x in vs for t, k in x.c):
            return v.addlab(frozenset([('pad', 'nan')]))
        return v

    def index(self, ip, b, i, r, node, fr, st):
        keep = pads(b.lab) if not b.o else pads(r.lab)
        r = unpad(r, pads(r.lab) - keep)
        p = pads(r.lab)
        if not p:
            return r
        li = deep(i)
        q = probes(li)
        sl = node.slice
        if isinstance(fr.func, Func) and isinstance(fr.func.node, (ast.FunctionDef, ast.Lambda)):
            cs = nan_counters(fr.func.node)
            if cs:
                ups = [x.upper for x in ast.walk(sl) if isinstance(x, ast.Slice) and x.upper is not None]
                if any(isinstance(y, ast.Name) and y.id in cs for u in ups for y in ast.walk(u)):
                    q = q | p
        if q:
            return unpad(r, q | {'nan'} if 'nan' not in q else None)
        if isinstance(sl, ast.Tuple) and len(sl.elts) >= 2 and not any(isinstance(x, (ast.Slice, ast.Constant)) for x in sl.elts):
            return unpad(r)
        return r

    def func_result(self, ip, f, bound, v, node, fr):
        if not isinstance(v, V):
            return v
        fn = f.node
        p = set()
        for x in bound.values():
            if isinstance(x, V):
                p |= pads(x.lab)
        if isinstance(fn, ast.FunctionDef) and asks_nan(fn) and v.top and v.kind not in ('nd', 'tt', 'str', 'shape', 'bool'):
            return unpad(v).addlab(frozenset(('probe', x) for x in p))
        if v.kind == 'bool' and v.top or v.c and not v.o and not v.top and all(isinstance(k, bool) for t, k in v.c):
            # the same number of time stamps in every series: no padding
            q = probes(v.lab) & p
            return unpad(v).addlab(frozenset(('hasnan' if asks_nan(fn) else 'eqsize', x) for x in q))
        if ('pad', 'nan') in v.lab and p - {'nan'}:
            return unpad(v, {'nan'}).addlab(frozenset(('pad', x) for x in p - {'nan'}))
        return v


def run(rep):
    for mode in ('numpy', 'pytorch'):
        ip, cat = make(H(), mode=mode)
        heap0 = user_heap(ip.gheap, lambda p: E)
        ip.clear_events()

        def collect(entry):
            rep.count('entry points executed')
            for e in ip.all_events():
                if e.rule == 'pad':
                    rep.violation('%s:%s' % (e.func, e.key), '%s: %s' % (entry, e.msg), where(ip, e), event_path(ip, e))
            ip.clear_events()

        for q, e in sorted(cat.funcs.items()):
            if e.func.qual.rsplit('.', 1)[-1] in EXEMPT or not e.func.mod.startswith(('tslearn.metrics', 'tslearn.barycenters', 'tslearn.clustering')):
                continue
            if not any(SERIES.match(p) for p in e.params) or 'mask' in e.params:
                continue
            kw = {}
            for p in e.params:
                l = frozenset([('pad', p)]) if SERIES.match(p) else E
                kw[p] = param_value(p, ip.default_of(e.func, p), e.opts.get(p), E, l, None, mode, typ=e.types.get(p))
                if p == 'metric' and SINKS.match(e.func.mod) and 'precomputed' in ast.dump(e.func.node):
                    kw[p] = const('euclidean')
            ip.run_function(obj(e.func), [], kw, heap0)
            rep.sample('functions', q)
            collect(q)
        if mode != 'numpy':
            continue
        for c in cat.estimators():
            L = Life(ip, cat, c)
            for cfg in configs(L):
                r, h, ex = L.construct(heap0, with_values(cfg, L))
                ref = main_ref(r) if r is not None else None
                if ref is None:
                    ip.clear_events()
                    continue
                heap = h
                if L.has('fit'):
                    heap, _ = fit_exits(L, r, h)
                    collect(c.qual + '.fit')
                    if heap is None:
                        continue
                for m in L.queries():
                    L.run(m, r, heap)
                    collect(c.qual + '.' + m)
    rep.rule = RULE
    rep.floor('entry points executed', 100)
