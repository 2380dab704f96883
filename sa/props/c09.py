"""C09: both computation backends offer what the library uses.

Every public function, public class and estimator method is executed abstractly
twice, once with NumPy data and once with PyTorch data, so backend-generic code
runs against the real attribute table of NumPyBackend / PyTorchBackend.
  - reading an attribute the selected backend object (or its linalg / random /
    testing part) does not have is a violation;
  - a call of a backend method, or of any function of the package, that does
    not bind to its signature is a violation;
  - a call of a NumPy / torch function with a keyword or a number of positional
    arguments its signature (sa/sigs.py) does not accept is a violation;
  - a NumPy function applied by name to a torch tensor inside a function that
    takes a backend is a violation;
  - a method or attribute only ndarrays have, used on a value that a torch
    function returned (or the reverse), is a violation."""
from ..common import *
from ..ext import strip
from .. import sigs

RULE = ('each operation performed through the backend exists in the backend that is selected there and accepts the arguments of the call')
TEN = ('torch',)
ARR = ('numpy',)
NOT_TENSOR = {'torch.is_tensor', 'torch.finfo', 'torch.Size', 'torch.device', 'torch.is_grad_enabled', 'torch.allclose', 'torch.cuda',
              'torch.manual_seed', 'torch.get_default_dtype'}
CREATE = {'zeros', 'empty', 'ones', 'full', 'arange', 'eye', 'zeros_like', 'rand', 'randn', 'array', 'asarray', 'tensor', 'from_numpy', 'stack',
          'hstack', 'vstack', 'cdist', 'pdist', 'sum', 'exp', 'abs', 'sqrt', 'log', 'floor', 'ceil', 'reshape', 'tril', 'triu', 'diag'}
# conversions to NumPy, and functions of scalars
NP_OK = {'array', 'asarray', 'ascontiguousarray', 'isscalar', 'random', 'testing', 'dtype', 'issubdtype', 'errstate', 'shape', 'ndim', 'size'}
STRIP_ATTR = {'shape', 'dtype', 'device', 'ndim', 'size', 'dim', 'numpy', 'tolist', 'item', 'numel', 'is_floating_point', 'is_complex', 'type'}


def generic(f, node):
    """node calls, by a global name, a function inside a backend-generic function"""
    if not isinstance(f, Func) or f.mod.startswith('tslearn.backend') or not isinstance(node, ast.Call):
        return False
    names = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    names |= {a.arg for a in ast.walk(f.node) if isinstance(a, ast.arg)}
    formals = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
    if not formals & {'be', 'backend'} and not any(isinstance(n, ast.Attribute) and n.attr in ('be', 'backend') for n in ast.walk(f.node)):
        return False
    r = node.func
    while isinstance(r, ast.Attribute):
        r = r.value
    return isinstance(r, ast.Name) and r.id not in names


class H(Hooks):
    backends = ()

    def shape_lab(self, lab):
        return lab - {TEN, ARR}

    def attr_missing(self, ip, ref, h, name, node, fr, maybe):
        c = h.cls if h is not None else None
        if isinstance(c, Cls) and c.mod.startswith('tslearn.backend'):
            ip.emit('missing', node, fr, '%s has no attribute `%s`' % (c.name, name), key=(c.name, name))

    def attr_load(self, ip, ref, h, name, v, node, fr):
        c = h.cls
        if isinstance(c, Cls) and c.mod.startswith('tslearn.backend.'):
            ip.emit('op', node, fr, name, key=(c.name, name))

    def call_bad(self, ip, f, why, node, fr):
        ip.emit('bind', node, fr, 'the call of %s does not fit its signature (%s)' % (f.qual, why), key=f.qual)

    def ext_call(self, ip, name, a, node, fr, st):
        if a.dstar is not None or a.star is not None:
            return
        why = sigs.check(name, a)
        if why is not None:
            ip.emit('sig', node, fr, '%s is called with arguments it does not accept: %s' % (name, why), key=name)
        if sigs.lookup(name) is not None:
            ip.emit('extop', node, fr, name, key=name)
        if name.startswith('numpy.') and name.split('.')[1] not in NP_OK and ip.mode == 'pytorch' and generic(fr.func, node):
            for v in list(a.pos) + list(a.kw.values()):
                if isinstance(v, V) and TEN in v.lab and ARR not in v.lab and v.top and not v.o:
                    ip.emit('foreign', node, fr, '%s is applied to a torch tensor' % name, key=name)
        i = sigs.DTYPE_POS.get(name)
        if i is not None and len(a.pos) > i:
            v = a.pos[i]
            if not v.o and not v.top and v.c and all(c[0] == 'i' for c in v.c) or v.top and v.kind == 'int' and not v.o:
                ip.emit('sig', node, fr, '%s is given a dimension where it takes a dtype' % name, key=name)
        if name in sigs.TORCH_SHAPE_FIRST and len(a.pos) > 1 and any(isinstance(o, T) and o.tag == 'tuple' for o in a.pos[0].o):
            ip.emit('sig', node, fr, '%s is given positional arguments after its shape' % name, key=name)

    def ext_result(self, ip, name, a, v, node, fr, st):
        s = name.rsplit('.', 1)[-1]
        if name.startswith('torch.') and (s in CREATE or s in ('Tensor', 'DoubleTensor', 'FloatTensor', 'as_tensor', 'scalar_tensor')):
            return strip(v, ARR).addlab(frozenset([TEN]))
        if name.startswith('numpy.') and s in CREATE:
            return strip(v, TEN).addlab(frozenset([ARR]))
        if TEN in v.lab or ARR in v.lab:
            if name.startswith(('builtins.', 'math.', 'sklearn.', 'scipy.', 'joblib.', 'numba.', 'random.')) or s in ('finfo', 'shape', 'ndim', 'is_tensor'):
                return strip(strip(v, TEN), ARR)
        return v

    def ext_method(self, ip, recv, name, a, node, fr, st):
        c = fr.func.cls if isinstance(fr.func, Func) else None
        if c is not None and c.mod.startswith('tslearn.backend') and ('PyTorch' in c.name) != (ip.mode == 'pytorch'):
            return      # the other backend's own implementation
        if TEN in recv.lab and ARR not in recv.lab and name in sigs.ND_ONLY and recv.top and not recv.o:
            ip.emit('method', node, fr, 'method `%s` of ndarrays is used on a torch tensor' % name, key=name)
        elif ARR in recv.lab and TEN not in recv.lab and name in sigs.TORCH_ONLY and recv.top and not recv.o and \
                not fr.mod.startswith('tslearn.backend'):
            ip.emit('method', node, fr, 'method `%s` of tensors is used on a NumPy array' % name, key=name)


def run(rep):
    ops = set()
    for mode in ('numpy', 'pytorch'):
        hk = H()
        ip, cat = make(hk, mode=mode)
        heap0 = user_heap(ip.gheap, lambda p: E)

        def collect(what):
            rep.count('entry points executed')
            for e in ip.all_events():
                if e.rule in ('missing', 'bind', 'sig', 'method', 'foreign'):
                    rep.violation('%s:%s:%s' % (e.rule, e.func, e.key), '%s with %s data: %s' % (what, mode, e.msg), where(ip, e),
                                  event_path(ip, e))
                elif e.rule in ('op', 'extop'):
                    ops.add((mode, e.func, e.line, str(e.key)))
            ip.clear_events()
        collect('import')
        for q, en in sorted(cat.funcs.items()):
            kw = {p: param_value(p, ip.default_of(en.func, p), en.opts.get(p), mode=mode, typ=en.types.get(p)) for p in en.params}
            ip.run_function(obj(en.func), [], kw, heap0, node=en.func.node)
            collect(q)
        for q, c in sorted(cat.classes.items()):
            if cat.is_estimator(c) or c.name.startswith('_'):
                continue
            f = cat.init_func(c)
            if f is None:
                continue
            L = Life(ip, cat, c, mode)
            r, h, ex = L.construct(heap0, {})
            collect(q)
            if r is None or main_ref(r) is None:
                continue
            for m in sorted(cat.methods(c)):
                if m.startswith('_') or L.is_prop(m):
                    continue
                L.run(m, r, h)
                collect(q + '.' + m)
        # (estimators convert their input to NumPy: their NumPy run covers them)
        for c in cat.estimators() if mode == 'numpy' else ():
            L = Life(ip, cat, c, mode)
            for cfg in configs(L):
                r, h, ex = L.construct(heap0, with_values(cfg, L))
                if r is None:
                    continue
                rr, st, ex = L.run('fit', r, h)
                collect(c.qual + '.fit')
                if st is None:
                    continue
                for m in L.queries():
                    L.run(m, r, st.heap)
                    collect(c.qual + '.' + m)
            ip.memo.clear()
    rep.counts['operations through a backend object'] = len(ops)
    rep.rule = RULE
    rep.floor('operations through a backend object', 400)
    rep.floor('entry points executed', 500)
