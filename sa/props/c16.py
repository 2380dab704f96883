"""C16: with PyTorch tensors the distance stays attached to the autograd graph.

Every differentiable public metric and the soft-DTW loss are executed abstractly
with tensors that require grad. Each input carries a label `g` (attached).
Operations that keep the graph propagate it; operations without a derivative by
nature (comparisons, argmin, shapes, isnan, ...) drop it; operations that detach
(detach, .data, numpy(), item(), tolist(), float(), int(), a NumPy / SciPy / math
function, torch.tensor of a tensor, a cast to integers, rounding, anything inside
no_grad) replace it by a label `cut`. autograd.Function.apply is attached to those
tensor arguments for which its backward returns a value computed from the incoming
gradient, its forward must not overwrite its arguments.
At the end the distance must carry `g` of every series and no `cut`."""
import re

from ..common import *

RULE = ('the returned distance carries the graph label of every input series and no label of a detaching operation, '
        'for every documented option value; autograd Functions do not overwrite their inputs')
NAME = re.compile(r'(cdist_)?(dtw|soft_dtw|frechet|gak|unnormalized_gak)(_normalized|_path|_path_from_metric|_limited_warping_length|'
                  r'_path_limited_warping_length|_subsequence_path)?$|subsequence_cost_matrix$')
SERIES = {'s1', 's2', 'dataset1', 'dataset2', 'ts1', 'ts2', 'subseq', 'longseq', 'x', 'y', 'X', 'Y', 'series1', 'series2'}
DROP = {'isnan', 'isfinite', 'isinf', 'argmin', 'argmax', 'argsort', 'any', 'all', 'nonzero', 'count_nonzero', 'argwhere', 'eq', 'ne', 'lt', 'gt',
        'le', 'ge', 'equal', 'allclose', 'isclose', 'is_tensor', 'size', 'dim', 'numel', 'nelement', 'logical_and', 'logical_or', 'logical_not',
        'zeros_like', 'ones_like', 'empty_like', 'full_like', 'rand_like', 'randn_like', 'new_zeros', 'new_ones', 'new_full', 'new_empty', 'searchsorted',
        'is_floating_point', 'is_complex', 'finfo', 'get_device', 'stride', 'is_contiguous', 'element_size', 'storage_offset', 'bool', 'signbit',
        'isneginf', 'isposinf', 'isreal', 'bucketize', 'tril_indices', 'triu_indices'}
CUT_METHODS = {'detach', 'detach_', 'numpy', 'item', 'tolist', '__array__', 'long', 'int', 'short', 'char', 'byte', 'round', 'floor', 'ceil', 'trunc',
               'sign', 'data_ptr', 'floor_divide', 'resolve_neg'} - {'data_ptr', 'resolve_neg'}
CUT_TORCH = {'tensor', 'Tensor', 'FloatTensor', 'DoubleTensor', 'HalfTensor', 'LongTensor', 'IntTensor', 'scalar_tensor', 'from_numpy', 'detach', 'round',
             'floor', 'ceil', 'trunc', 'sign', 'floor_divide', 'detach_copy', 'heaviside', 'bincount', 'histc', 'multinomial', 'bernoulli'}
CUT_BUILTINS = {'float', 'int', 'complex', 'round'}
DROP_BUILTINS = {'bool', 'len', 'isinstance', 'type', 'str', 'repr', 'print', 'format', 'id', 'hash', 'issubclass', 'hasattr', 'callable', 'range',
                 'enumerate' if False else 'ascii', 'dir', 'vars', 'any', 'all', 'slice'}
NP_DROP = {'isscalar', 'ndim', 'shape', 'size', 'isnan', 'isfinite', 'isinf', 'argmin', 'argmax', 'argsort', 'any', 'all', 'allclose', 'isclose',
           'array_equal', 'issubdtype', 'dtype', 'unravel_index', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'finfo'}
GRADCTX = {'torch.no_grad': False, 'torch.inference_mode': False, 'torch.autograd.no_grad': False, 'torch.enable_grad': True,
           'torch.autograd.inference_mode': False, 'torch.autograd.grad_mode.no_grad': False}


def g(lab):
    return {l for l in lab if isinstance(l, tuple) and l and l[0] == 'g'}


def drop(v):
    return v.with_(lab=frozenset(l for l in v.lab if not (isinstance(l, tuple) and l and l[0] in ('g', 'cut', 'go'))))


def cut(v, what, node, fr):
    gs = g(v.lab)
    if not gs:
        return v
    site = '%s in %s' % (what, fr.func.qual if isinstance(fr.func, Func) else fr.mod)
    return v.with_(lab=frozenset(l for l in v.lab if l not in gs) | frozenset(('cut', l[1], site, getattr(node, 'lineno', 0), fr.mod) for l in gs))


def integer(v):
    return any(isinstance(o, Ext) and re.search(r'\.(u?int\d*|long|short|bool)$', o.name) for o in v.o)


class H(Hooks):
    def shape_lab(self, lab):
        return frozenset(l for l in lab if not (isinstance(l, tuple) and l and l[0] in ('g', 'cut', 'go')))

    compare_lab = shape_lab

    def off(self, ip, v, node, fr):
        if ip.gradoff == 'no_grad' and g(v.lab):
            return cut(v, 'no_grad', node, fr)
        return v

    def attr_val(self, ip, v, name, st, fr, node):
        if g(v.lab) and v.top and name == 'data':
            return cut(V(top=True, kind=v.kind, own=v.own, lab=v.lab), '.data', node, fr)
        if name == 'requires_grad' and g(v.lab) and v.top and not v.o:
            return const(True)
        if v.top and name in ('requires_grad', 'device', 'grad', 'is_leaf', 'grad_fn', 'is_cuda', 'layout', 'itemsize', 'nbytes'):
            return drop(V(top=True, kind='any', lab=v.lab))
        return None

    def ext_call(self, ip, name, a, node, fr, st):
        if name in ('torch.set_grad_enabled', 'torch.autograd.set_grad_enabled', 'torch._C._set_grad_enabled') and a.pos:
            if a.pos[0].single_const() != (True, True):
                self.__dict__.setdefault('x', None)

    def ext_result(self, ip, name, a, v, node, fr, st):
        mod, s = name.rsplit('.', 1) if '.' in name else ('', name)
        if name in GRADCTX:
            return obj(T('gradctx', GRADCTX[name]))
        if s == 'set_grad_enabled' and mod.startswith('torch'):
            return obj(T('gradctx', bool(a.pos) and a.pos[0].single_const() == (True, True)))
        if name == 'torch.is_tensor' and a.pos and g(a.pos[0].lab) and a.pos[0].top and not a.pos[0].o:
            return const(True)
        if not any(isinstance(l, tuple) and l and l[0] in ('g', 'cut') for l in v.lab):
            return v
        if mod == 'builtins':
            return cut(v, s + '()', node, fr) if s in CUT_BUILTINS else drop(v) if s in DROP_BUILTINS else self.off(ip, v, node, fr)
        if mod.startswith('torch'):
            if s in DROP:
                return drop(v)
            if s in CUT_TORCH:
                return cut(v, 'torch.' + s, node, fr)
            d = a.kw.get('dtype')
            if d is not None and integer(d):
                return cut(v, 'a cast to integers', node, fr)
            return self.off(ip, v, node, fr)
        if mod.split('.')[0] in ('numpy', 'scipy', 'math', 'sklearn', 'numba', 'statistics'):
            return drop(v) if s in NP_DROP or mod == 'math' and s.startswith('is') else cut(v, name, node, fr)
        return self.off(ip, v, node, fr)

    def method_result(self, ip, recv, name, a, v, node, fr, st):
        if not any(isinstance(l, tuple) and l and l[0] in ('g', 'cut') for l in v.lab):
            return v
        if name in DROP:
            return drop(v)
        if name in CUT_METHODS and g(recv.lab):
            return cut(v, name + '()', node, fr)
        if name == 'requires_grad_' and g(recv.lab) and any(x.single_const() == (True, False) for x in list(a.pos) + list(a.kw.values())):
            return cut(v, 'requires_grad_(False)', node, fr)
        if name in ('to', 'type', 'astype') and any(integer(x) for x in list(a.pos) + list(a.kw.values())):
            return cut(v, 'a cast to integers', node, fr)
        if name in ('type',) and not a.pos and not a.kw:
            return drop(v)
        return self.off(ip, v, node, fr)

    def arith(self, ip, op, args, v, node, fr, st):
        if op is ast.FloorDiv:
            return cut(v, '//', node, fr)
        return self.off(ip, v, node, fr)

    def index(self, ip, b, i, r, node, fr, st):
        return self.off(ip, r, node, fr)

    def func_result(self, ip, f, bound, v, node, fr):
        if isinstance(f.node, ast.FunctionDef):
            for d in f.node.decorator_list:
                for x in ast.walk(d):
                    if isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) in ('no_grad', 'inference_mode'):
                        return self.deep_cut(ip, v, '@no_grad', f.node, fr)
        return v

    def deep_cut(self, ip, v, what, node, fr):
        no = frozenset(T('tuple', tuple(self.deep_cut(ip, x, what, node, fr) for x in o.a[0])) if isinstance(o, T) and o.tag == 'tuple' else o for o in v.o)
        return cut(v.with_(o=no), what, node, fr)

    def write(self, ip, roots, node, fr, how, v):
        for r in roots:
            if isinstance(r, tuple) and r and r[0] == 'fnarg' and ip.gradoff == 'forward':
                ip.emit('inplace', node, fr, 'the forward of an autograd Function overwrites its argument %d (%s)' % (r[1], how), key=r[1])

    def autograd(self, ip, cls, a, out, back, node, fr, st):
        lab = E
        for i, x in enumerate(a.pos):
            gs = frozenset(l for l in ip.deep_labels(x, st) if isinstance(l, tuple) and l and l[0] in ('g', 'cut'))
            if not gs:
                continue
            ok = back is not None and i < len(back) and ('go',) in ip.deep_labels(back[i], st)
            w = V(top=True, lab=gs)
            lab |= (w if ok else cut(w, 'backward of %s returns no gradient for argument %d' % (cls.name, i), node, fr)).lab
        self.applied = getattr(self, 'applied', 0) + 1
        return drop(out).addlab(lab)


def parts(ip, r, st):
    """alternatives for `the distance` in a returned value: list of label sets"""
    tup = [o for o in r.o if isinstance(o, T) and o.tag == 'tuple']
    if tup and not r.top:
        return [[frozenset(ip.deep_labels(x, st)) for x in o.a[0]] for o in tup]
    return [[frozenset(ip.deep_labels(r, st))]]


def run(rep):
    hk = H()
    ip, cat = make(hk, mode='pytorch')
    base = user_heap(ip.gheap, lambda p: E)

    def tensor(p):
        return V(top=True, kind='tt', lab=frozenset([('g', p)]))

    def judge(q, r, st, series):
        rep.count('differentiable entry points executed')
        for e in ip.all_events():
            if e.rule == 'inplace':
                rep.violation('inplace:%s' % e.func, '%s: %s' % (q, e.msg), where(ip, e), event_path(ip, e))
        ip.clear_events()
        if r is None or st is None:
            raise AnalysisBroken('%s never returns' % q)
        for alt in parts(ip, r, st):
            best = None
            for lab in alt:
                miss = sorted(p for p in series if ('g', p) not in lab)
                cuts = sorted(l for l in lab if isinstance(l, tuple) and l and l[0] == 'cut')
                score = (len(miss) + len(cuts), miss, cuts)
                if best is None or score[0] < best[0]:
                    best = score
            rep.count('returned distances')
            for c in best[2]:
                rep.violation('cut:%s:%s' % (c[2], c[1] if False else ''), '%s: the returned distance depends on `%s` through %s, which detaches it from the autograd graph'
                              % (q, c[1], c[2]), '%s:%s' % (ip.p.paths.get(c[4], c[4]), c[3]))
            for p in best[1]:
                if not any(c[1] == p for c in best[2]):
                    rep.violation('lost:%s:%s' % (q, p), '%s: the returned distance is not attached to the graph of `%s`' % (q, p), q)

    names = set()
    for q, e in sorted(cat.funcs.items()):
        short = q.rsplit('.', 1)[1]
        if not q.startswith('tslearn.metrics.') or not NAME.match(short):
            continue
        series = [p for p in e.params if p in SERIES]
        if not series:
            raise AnalysisBroken('no series parameter in %s' % q)
        kw = {p: param_value(p, ip.default_of(e.func, p), e.opts.get(p), E, E, None, typ=e.types.get(p), mode='pytorch') for p in e.params}
        for p in series:
            kw[p] = tensor(p)
        worlds = [kw]
        m = ip.default_of(e.func, 'metric') if 'metric' in e.params else None
        if m is not None:
            call = V(top=True, kind='any')
            worlds = [dict(kw, metric=const(x)) for x in ('euclidean', 'sqeuclidean')] + [dict(kw, metric=call), dict(kw, metric=const('precomputed'), s2=NONEV)]
        if 'dataset2' in e.params and ip.default_of(e.func, 'dataset2') is not None:
            worlds.append(dict(kw, dataset2=NONEV))
        for w in worlds:
            r, st, ex = ip.run_function(obj(e.func), [], w, base, node=e.func.node)
            judge(q, r, st, [p for p in series if g(w[p].lab)])
        names.add(short)
    n = 0
    for q, c in sorted(cat.classes.items()):
        if c.name != 'SoftDTWLossPyTorch':
            continue
        L = Life(ip, cat, c, 'pytorch')
        for norm in (True, False):
            vals = {p: L.hyper_value(p) for p in L.hyper}
            if 'normalize' in vals:
                vals['normalize'] = const(norm)
            r, h, ex = L.construct(base, vals)
            ip.clear_events()
            f = cat.methods(c).get('forward')
            if r is None or f is None:
                raise AnalysisBroken('the soft-DTW loss cannot be constructed')
            ps = [x.arg for x in f.node.args.args][1:]
            rr, st, ex = ip.run_function(obj(T('bound', r, f)), [], {p: tensor(p) for p in ps}, h, node=f.node)
            judge(q + '.forward', rr, st, ps)
            n += 1
    rep.count('metrics', len(names))
    rep.count('loss configurations', n)
    rep.count('autograd Function applications', getattr(hk, 'applied', 0))
    rep.rule = RULE
    rep.floor('metrics', 14)
    rep.floor('loss configurations', 1)
    rep.floor('returned distances', 20)
