"""Models of everything outside the analysed program: builtins, numpy, torch,
scikit-learn, joblib, ...  (effects, aliasing, freshness, control).

The default for an unknown external function is: fresh result, labels = union
of the argument labels, may raise, callables among the arguments are invoked.
"""
from .values import *

# ---------------------------------------------------------------- constants
CONSTS = {
    'numpy.newaxis': NONEV, 'numpy.nan': NAN, 'numpy.inf': const(float('inf')), 'numpy.pi': const(3.141592653589793),
    'numpy.e': NUM, 'math.nan': NAN, 'math.inf': const(float('inf')), 'math.pi': const(3.141592653589793),
    'torch.nan': NAN, 'torch.inf': const(float('inf')), 'torch.pi': NUM, 'sys.maxsize': INT,
    'os.sep': STR, 'os.pardir': STR, 'os.curdir': STR, 'os.linesep': STR, 'sys.version': STR,
    'sys.version_info': TOP, 'sys.platform': STR, 'os.name': STR,
    'numpy.random.mtrand._rand': V(top=True, kind='rng', lab=frozenset([('rng', 'global')])),
    'typing.TYPE_CHECKING': const(False),
    'numpy.r_': top('nd'), 'numpy.c_': top('nd'),
}


def ext_value(name):
    v = CONSTS.get(name)
    if v is not None:
        return v
    if name.endswith('.__version__'):
        return STR
    if name.endswith('.__name__') or name.endswith('.__doc__'):
        return STR
    return obj(Ext(name))


# ---------------------------------------------------------------- aliasing
ALIAS0 = set('''asarray asanyarray ascontiguousarray asfortranarray ravel reshape squeeze transpose atleast_1d
atleast_2d atleast_3d broadcast_to expand_dims swapaxes moveaxis rollaxis real imag diagonal diag flip fliplr flipud
rot90 split array_split hsplit vsplit dsplit broadcast_arrays as_strided sliding_window_view require asarray_chkfinite
view matrix_transpose asmatrix nditer rec permute_dims unstack'''.split())
TORCH_ALIAS0 = set('''from_numpy as_tensor asarray reshape squeeze unsqueeze transpose permute t ravel flatten view
expand narrow select diagonal movedim moveaxis swapaxes broadcast_to atleast_1d atleast_2d atleast_3d detach unbind split
chunk view_as_real real imag as_strided tensor_split hsplit vsplit adjoint'''.split())
SK_ALIAS = {'sklearn.utils.validation.check_array', 'sklearn.utils.check_array', 'sklearn.utils.validation.column_or_1d',
            'sklearn.utils.column_or_1d', 'sklearn.utils.validation.check_X_y', 'sklearn.utils.check_X_y',
            'sklearn.utils.validation._check_sample_weight', 'sklearn.utils.validation.indexable',
            'sklearn.utils.check_random_state', 'sklearn.utils.validation.check_random_state',
            'sklearn.utils.validation.as_float_array', 'sklearn.utils.as_float_array',
            'sklearn.utils.validation._check_y'}
# functions writing into their first argument
MUT0 = {'numpy.copyto': 0, 'numpy.put': 0, 'numpy.fill_diagonal': 0, 'numpy.place': 0, 'numpy.putmask': 0,
        'numpy.put_along_axis': 0, 'numpy.random.shuffle': 0, 'random.shuffle': 0, 'numpy.add.at': 0,
        'numpy.subtract.at': 0, 'numpy.maximum.at': 0, 'numpy.minimum.at': 0, 'numpy.multiply.at': 0,
        'heapq.heappush': 0, 'heapq.heapify': 0, 'heapq.heappop': 0, 'bisect.insort': 0,
        'torch.nn.init.zeros_': 0, 'torch.nn.init.ones_': 0}
ALIAS_ATTR = {'T', 'flat', 'real', 'imag', 'values', 'iloc', 'loc', 'data', 'mT', 'H', 'base', 'at', 'iat', 'ctx'}
ALIAS_METH = set('''reshape ravel view squeeze unsqueeze transpose swapaxes permute t numpy detach to cpu cuda double
float long int half type contiguous expand expand_as diagonal narrow select to_numpy __array__ requires_grad_ values
resolve_conj resolve_neg flatten_ moveaxis movedim unbind split chunk view_as reshape_as T __iter__ loc iloc get
setdefault items keys get_params steps __getitem__ set_params fit partial_fit'''.split())
MUT_METH = set('''sort fill resize put partition itemset setfield setflags append extend insert pop popitem update
remove clear reverse add discard setdefault byteswap_ __setitem__ __delitem__ __iadd__ difference_update
intersection_update symmetric_difference_update fit partial_fit set_params fit_transform fit_predict setstate
load_state_dict load_weights set_weights train_on_batch appendleft popleft drop_duplicates_ set_index_ compile
__setstate__ rename_ insert_ zero_ backward_ write_ seed_'''.split())
FRESH_KINDS_METH = {'copy', 'clone', 'astype', 'tolist', 'flatten'}

ND_FUNCS = None
INT_FUNCS = {'len', 'int', 'ord', 'hash', 'id'}
NUM_FUNCS = {'float', 'sum', 'abs', 'round', 'pow', 'divmod', 'complex'}

CLOSED_BASES = ('sklearn.base.', 'builtins.', 'sklearn.neighbors.', 'sklearn.neural_network.', 'abc.ABC',
                'sklearn.svm.')


def closed_base(name):
    return any(name.startswith(p) for p in CLOSED_BASES)


BASE_METHODS = {
    'sklearn.base.BaseEstimator': {'get_params', 'set_params', '_get_tags', '__sklearn_tags__', '_more_tags',
                                   '_check_feature_names', '_check_n_features', '_validate_data', '_get_param_names',
                                   '__repr__', '__getstate__', '__setstate__', '_validate_params', '__sklearn_clone__',
                                   '_repr_html_', '_get_default_requests', 'get_metadata_routing', '_doc_link_template',
                                   '_get_doc_link', '_build_request_for_signature', '_get_metadata_request'},
    'sklearn.base.TransformerMixin': {'fit_transform', 'set_output', '__sklearn_tags__'},
    'sklearn.base.ClusterMixin': {'fit_predict', '_estimator_type', '__sklearn_tags__'},
    'sklearn.base.ClassifierMixin': {'score', '_estimator_type', '__sklearn_tags__'},
    'sklearn.base.RegressorMixin': {'score', '_estimator_type', '__sklearn_tags__'},
    'builtins.object': set(),
}
_NN = {'__init__', 'fit', 'kneighbors', 'radius_neighbors', 'kneighbors_graph', 'radius_neighbors_graph', '_fit',
       '_check_algorithm_metric', 'get_params', 'set_params', '__sklearn_tags__', '_more_tags', '_get_tags',
       '_pairwise', '_validate_params', '_validate_data', '_get_param_names', 'get_metadata_routing'}
BASE_METHODS['sklearn.neighbors.NearestNeighbors'] = _NN
BASE_METHODS['sklearn.neighbors.KNeighborsClassifier'] = (_NN - {'radius_neighbors', 'radius_neighbors_graph'}) | {'predict', 'predict_proba', 'score'}
BASE_METHODS['sklearn.neighbors.KNeighborsRegressor'] = (_NN - {'radius_neighbors', 'radius_neighbors_graph'}) | {'predict', 'score'}
_MLP = {'__init__', 'fit', 'predict', 'score', 'get_params', 'set_params', '_get_tags', '_more_tags',
        '__sklearn_tags__', 'partial_fit', '_validate_data', '_get_param_names', '_validate_params',
        '_label_binarizer'}
BASE_METHODS['sklearn.neural_network.MLPClassifier'] = _MLP | {'predict_proba', 'predict_log_proba'}
BASE_METHODS['sklearn.neural_network.MLPRegressor'] = _MLP

NN_INIT = {
    'sklearn.neighbors.NearestNeighbors': ['n_neighbors', 'radius', 'algorithm', 'leaf_size', 'metric', 'p',
                                           'metric_params', 'n_jobs'],
    'sklearn.neighbors.KNeighborsClassifier': ['n_neighbors', 'weights', 'algorithm', 'leaf_size', 'p', 'metric',
                                               'metric_params', 'n_jobs'],
    'sklearn.neighbors.KNeighborsRegressor': ['n_neighbors', 'weights', 'algorithm', 'leaf_size', 'p', 'metric',
                                              'metric_params', 'n_jobs'],
}
# keyword-only arguments of the constructors above
NN_KWONLY = {'sklearn.neighbors.NearestNeighbors': 1, 'sklearn.neighbors.KNeighborsClassifier': 1,
             'sklearn.neighbors.KNeighborsRegressor': 1}
MLP_INIT = ['hidden_layer_sizes', 'activation', 'solver', 'alpha', 'batch_size', 'learning_rate',
            'learning_rate_init', 'power_t', 'max_iter', 'shuffle', 'random_state', 'tol', 'verbose', 'warm_start',
            'momentum', 'nesterovs_momentum', 'early_stopping', 'validation_fraction', 'beta_1', 'beta_2', 'epsilon',
            'n_iter_no_change', 'max_fun']
MLPC_INIT = MLP_INIT
MLPR_INIT = ['loss'] + MLP_INIT
NN_FIT_ATTRS = ['_fit_X', '_fit_method', '_tree', 'n_samples_fit_', 'effective_metric_', 'effective_metric_params_',
                'n_features_in_']
NN_SUP_ATTRS = ['_y', 'classes_', 'outputs_2d_']
MLP_FIT_ATTRS = ['coefs_', 'intercepts_', 'n_layers_', 'n_outputs_', 'out_activation_', 'n_iter_', 't_', 'loss_',
                 'loss_curve_', 'best_loss_', '_label_binarizer', 'classes_', 'n_features_in_', '_optimizer',
                 '_random_state', '_no_improvement_count', 'validation_scores_', 'best_validation_score_']


def ext_class_has(extname, attr):
    t = BASE_METHODS.get(extname)
    return bool(t) and attr in t


# ---------------------------------------------------------------- data
def lab_of(ip, a, st):
    labs = E
    for v in a.all():
        labs = labs | ip.deep_labels(v, st)
    return labs


ARR_ATTR_INT = {'ndim', 'size', 'itemsize', 'nbytes'}
KNOWN_ATTRS_ARR = {'shape', 'dtype', 'device', 'requires_grad', 'grad', 'is_cuda', 'is_leaf', 'flags', 'strides'}


def data_attr(ip, v, name, st, fr, node):
    called = getattr(node, '_called', False)
    if called:
        return obj(T('xmeth', v, name))
    k = ip.h.attr_val(ip, v, name, st, fr, node)
    if k is not None:
        return k
    if name in ('shape', 'ndim'):
        k = ip.h.shape_val(ip, v, name)
        if k is not None:
            return k
    if name == 'shape':
        return V(top=True, kind='shape', lab=ip.h.shape_lab(v.lab))
    if name in ARR_ATTR_INT and v.kind in ('nd', 'tt', 'any', 'cmp'):
        return V(top=True, kind='int', lab=ip.h.shape_lab(v.lab))
    if name == 'dtype':
        return V(top=True, kind='dtype', lab=ip.h.shape_lab(v.lab))
    if name == '__class__':
        return obj(T('typeof', v))
    if name == '__name__':
        return V(top=True, kind='str', lab=v.lab)
    if name in ALIAS_ATTR:
        return V(top=True, kind=v.kind if v.kind in ('nd', 'tt') else 'any', own=v.own, lab=v.lab)
    if name in KNOWN_ATTRS_ARR:
        return V(top=True, lab=v.lab)
    if v.kind in ('nd', 'tt', 'rng', 'str', 'num', 'int', 'shape', 'dtype'):
        return obj(T('xmeth', v, name))
    return V(top=True, own=v.own, lab=v.lab)


def definitely_array_index(ip, i, st):
    """the index selects by an array / list (so the result is a copy)"""
    if i.top and i.kind in ('nd', 'tt', 'cmp') and not i.o and not i.c:
        return True
    if not i.top and not i.c and i.o:
        for o in i.o:
            if isinstance(o, Ref):
                h = ip.hget(st, o)
                if h is None or h.kind != 'list':
                    return False
            elif isinstance(o, T) and o.tag == 'tuple':
                if not any(definitely_array_index(ip, x, st) for x in o.a[0]):
                    return False
            else:
                return False
        return True
    return False


def data_subscript(ip, b, i, node, st, fr):
    labs = b.lab | ip.deep_labels(i, st)
    k = b.kind
    if k == 'shape':
        sl = any(isinstance(o, T) and o.tag == 'slice' for o in i.o)
        return V(top=True, kind='shape' if sl else 'int', lab=labs)
    if k == 'str':
        return V(top=True, kind='str', lab=labs)
    kind = k if k in ('nd', 'tt') else 'any'
    own = b.own
    if own and definitely_array_index(ip, i, st):
        own = E
    return V(top=True, kind=kind, own=own, lab=labs)


def data_elem(v):
    if v.kind == 'shape':
        return V(top=True, kind='int', lab=v.lab)
    if v.kind in ('nd', 'tt', 'str'):
        return V(top=True, kind=v.kind, own=v.own, lab=v.lab)
    return V(top=True, own=v.own, lab=v.lab)


# ---------------------------------------------------------------- isinstance
PYTYPES = {'s': 'str', 'i': 'int', 'f': 'float', 'b': 'bool', 'n': 'NoneType', 'y': 'bytes'}
NUMERIC_ABC = {'numbers.Number', 'numbers.Real', 'numbers.Complex'}


def _cls_list(ip, cl, st):
    r = []
    for o in cl.o:
        if isinstance(o, T) and o.tag == 'tuple':
            for x in o.a[0]:
                y = _cls_list(ip, x, st)
                if y is None:
                    return None
                r.extend(y)
        elif isinstance(o, (Ext, Cls)):
            r.append(o)
        elif isinstance(o, T) and o.tag == 'typeof':
            v = o.a[0]
            if not v.top and not v.o and v.c == frozenset([NONE]):
                r.append(Ext('builtins.NoneType'))
            else:
                return None
        else:
            return None
    if cl.top or (cl.c - {ABSENT}):
        return None
    return r


def _const_isin(t, classes):
    for c in classes:
        if isinstance(c, Cls):
            continue
        n = c.name
        s = n.rsplit('.', 1)[-1]
        if n == 'builtins.object':
            return True
        if n.startswith('builtins.'):
            if s == PYTYPES.get(t):
                return True
            if t == 'b' and s == 'int':
                return True
        if n in NUMERIC_ABC and t in 'ifb':
            return True
        if n in ('numbers.Integral', 'numbers.Rational') and t in 'ib':
            return True
        if s in ('Hashable',) and n.startswith(('typing', 'collections')):
            return True
        if t == 's' and s in ('Sequence', 'Iterable', 'Sized', 'Collection', 'Container', 'AnyStr'):
            return True
    return False


def _obj_isin(ip, o, classes, st):
    """True/False/None(maybe)"""
    for c in classes:
        if isinstance(c, Ext) and c.name == 'builtins.object':
            return True
    names = [c.name if isinstance(c, Ext) else None for c in classes]
    short_ = [n.rsplit('.', 1)[-1] if n else None for n in names]
    if isinstance(o, Ref):
        h = ip.hget(st, o)
        if h is None:
            return None
        if h.kind == 'inst' and isinstance(h.cls, Cls):
            mro = h.cls.mro()
            for c in classes:
                if any((isinstance(c, Cls) and b is c) or (isinstance(c, Ext) and b == c) for b in mro):
                    return True
                if isinstance(c, Ext) and c.name.rsplit('.', 1)[-1] in {b.name.rsplit('.', 1)[-1] for b in mro if isinstance(b, Ext)}:
                    return True
            for c in classes:
                if isinstance(c, Ext) and not c.name.startswith(('builtins.', 'numpy.', 'numbers.', 'pandas.', 'torch.Tensor')):
                    if any(isinstance(b, Ext) and not closed_base(b.name) for b in mro):
                        return None
            return False
        want = {'list': {'list'}, 'dict': {'dict'}, 'set': {'set', 'frozenset'}, 'gen': set()}.get(h.kind)
        if want is None:
            return None
        for n, s in zip(names, short_):
            if n and n.startswith('builtins.') and s in want:
                return True
            if s in ('Iterable', 'Collection', 'Sized', 'Container'):
                return True
            if s in ('Sequence', 'MutableSequence') and h.kind == 'list':
                return True
            if s in ('Mapping', 'MutableMapping') and h.kind == 'dict':
                return True
        return False
    if isinstance(o, T) and o.tag == 'tuple':
        for n, s in zip(names, short_):
            if n == 'builtins.tuple' or s in ('Sequence', 'Iterable', 'Collection', 'Sized', 'Size'):
                return True
        return False
    if isinstance(o, (Func,)) or isinstance(o, T) and o.tag in ('bound', 'partial', 'xmeth', 'cmeth'):
        for s in short_:
            if s in ('Callable', 'FunctionType', 'MethodType'):
                return True
        return False
    if isinstance(o, (Cls, Ext)):
        for n in names:
            if n == 'builtins.type':
                return None
        return None if isinstance(o, Ext) else False
    return None


def _top_isin(ip, v, classes):
    """(may be instance, may not be instance) of the unknown part"""
    k = v.kind
    hit = miss = False
    any_maybe = False
    for c in classes:
        if isinstance(c, Cls):
            # unknown values are data, numbers, strings or callables; instances of the
            # analysed program's classes are always tracked on the abstract heap
            continue
        n = c.name
        s = n.rsplit('.', 1)[-1]
        if n == 'builtins.object':
            return True, False
        if k == 'nd':
            if n == 'numpy.ndarray':
                hit = True
            elif s in ('Iterable', 'Sized', 'Collection'):
                hit = True
            elif n.startswith('torch.') or n.startswith('builtins.') and s not in ('int', 'float', 'bool', 'complex'):
                pass
            elif s in ('Number', 'Integral', 'Real', 'float', 'int', 'integer', 'floating', 'generic', 'float64', 'float32', 'bool'):
                any_maybe = True   # 0-d results
            else:
                pass
        elif k == 'tt':
            if n in ('torch.Tensor',) or s in ('Tensor',):
                hit = True
        elif k == 'str':
            if n == 'builtins.str':
                hit = True
        elif k in ('num', 'int', 'bool'):
            if k == 'int' and (n in ('builtins.int', 'numbers.Integral', 'numbers.Number', 'numbers.Real')):
                hit = True
            elif n in NUMERIC_ABC:
                hit = True
            elif n in ('builtins.float', 'builtins.int', 'builtins.bool', 'numbers.Integral') or n.startswith('numpy.') and n != 'numpy.ndarray':
                any_maybe = True
        elif k == 'shape':
            if n in ('builtins.tuple',):
                hit = True
            elif s in ('Iterable', 'Size', 'Sequence'):
                any_maybe = True
        elif k == 'rng':
            if s in ('RandomState', 'Generator'):
                any_maybe = True
        elif k == 'cmp':
            if n == 'numpy.ndarray' or n == 'torch.Tensor' or n == 'builtins.bool':
                any_maybe = True
        else:
            if n in ('torch.Tensor', 'torch.Size') and ip.mode == 'numpy':
                continue
            if n == 'builtins.NoneType':
                continue
            any_maybe = True
    if hit:
        return True, False
    return any_maybe, True


def isinstance_split(ip, x, cl, st):
    """(value if instance, value if not instance); None when unknown"""
    classes = _cls_list(ip, cl, st)
    if classes is None:
        return None, None
    tc = frozenset(c for c in x.c if c != ABSENT and _const_isin(c[0], classes))
    fc = frozenset(c for c in x.c if c != ABSENT) - tc
    to, fo = set(), set()
    for o in x.o:
        r = _obj_isin(ip, o, classes, st)
        if r is not False:
            to.add(o)
        if r is not True:
            fo.add(o)
    tt = ft = False
    tk = x.kind
    if x.top:
        tt, ft = _top_isin(ip, x, classes)
        if tt and x.kind == 'any' and len(classes) == 1 and isinstance(classes[0], Ext):
            n = classes[0].name
            tk = {'numpy.ndarray': 'nd', 'torch.Tensor': 'tt', 'builtins.str': 'str', 'builtins.int': 'int',
                  'builtins.float': 'num', 'numbers.Number': 'num', 'numbers.Integral': 'int',
                  'builtins.bool': 'bool'}.get(n, 'any')
    a = V(c=tc, o=frozenset(to), top=tt, kind=tk if tt else 'any', own=x.own, lab=x.lab, idt=x.idt)
    b = V(c=fc, o=frozenset(fo), top=ft, kind=x.kind if ft else 'any', own=x.own, lab=x.lab, idt=x.idt)
    return a, b


# ---------------------------------------------------------------- helpers
def is_callable_obj(o):
    return isinstance(o, Func) or (isinstance(o, T) and o.tag in ('bound', 'partial'))


def run_callbacks(ip, a, node, st, fr, labs):
    """invoke callables among the arguments; labels of what they return"""
    from .interp import Args, Dead
    out = frozenset()
    for v in a.all():
        for o in v.o:
            if is_callable_obj(o):
                s = st.copy()
                try:
                    r = ip.call_obj(o, v, Args([], {}, top(lab=labs)), node, s, fr)
                    out = out | ip.deep_labels(r, s)
                    st.heap = join_heap(st.heap, s.heap)
                except Dead:
                    pass
    return out


def out_kind(name):
    if name.startswith('numpy.') or name.startswith('scipy.'):
        s = name.rsplit('.', 1)[-1]
        if s in ('isscalar', 'array_equal', 'allclose', 'isclose_') or s.startswith('issub'):
            return 'bool'
        if s in ('ndim', 'size'):
            return 'int'
        if s == 'shape':
            return 'shape'
        if s in ('RandomState', 'default_rng'):
            return 'rng'
        if s in ('finfo', 'iinfo', 'dtype', 'minimize', 'interp1d', 'ndindex', 'nditer', 'errstate', 'linregress'):
            return 'any'
        if s[:1].isupper():
            return 'any'
        if s in ('float64', 'float32', 'float16'):
            return 'num'
        if s in ('int64', 'int32', 'int8', 'int16', 'intp', 'uint8'):
            return 'int'
        return 'nd'
    if name.startswith('torch.'):
        s = name.rsplit('.', 1)[-1]
        if s in ('is_tensor', 'is_floating_point', 'is_complex', 'allclose', 'equal', 'is_grad_enabled', 'is_available'):
            return 'bool'
        if s in ('Size',):
            return 'shape'
        if s in ('no_grad', 'enable_grad', 'set_grad_enabled', 'Generator', 'finfo', 'device', 'dtype', 'manual_seed'):
            return 'any'
        if s in ('max', 'min', 'sort', 'topk', 'median', 'mode', 'cummax', 'cummin'):
            return 'any'
        return 'tt'
    if name.startswith('math.'):
        return 'bool' if name.rsplit('.', 1)[-1].startswith('is') else 'num'
    if name.startswith('os.path.'):
        return 'bool' if name.rsplit('.', 1)[-1] in ('isfile', 'isdir', 'exists', 'isabs', 'islink') else 'str'
    if name.startswith('warnings.') or name.startswith('logging.'):
        return 'none'
    if name in ('sklearn.utils.validation._check_sample_weight', 'sklearn.utils.validation.check_array',
                'sklearn.utils.check_array', 'sklearn.utils.multiclass.unique_labels', 'sklearn.metrics.pairwise.pairwise_kernels',
                'sklearn.metrics.pairwise.euclidean_distances', 'sklearn.metrics.pairwise.pairwise_distances'):
        return 'nd'
    return 'any'


# externals that never raise for well-formed reasons we care about and run no callback
PURE = {'warnings.warn', 'warnings.simplefilter', 'warnings.filterwarnings', 'functools.partial', 'functools.wraps',
        'math.isclose', 'math.isinf', 'math.isnan', 'logging.getLogger', 'builtins.print'}

NUMBA_DECO = {'njit', 'jit', 'vectorize', 'guvectorize', 'register_jitable', 'jitclass', 'cfunc', 'stencil'}
CONTEXT_FRESH = {'warnings.catch_warnings', 'numpy.errstate', 'torch.no_grad', 'contextlib.nullcontext'}

OPEN_FUNCS = {'builtins.open': 'file', 'h5py.File': 'h5', 'zipfile.ZipFile': 'zip', 'gzip.open': 'file',
              'tempfile.NamedTemporaryFile': 'file', 'tempfile.TemporaryFile': 'file', 'io.open': 'file',
              'bz2.open': 'file', 'lzma.open': 'file', 'os.fdopen': 'file', 'pathlib.Path.open': 'file',
              'tarfile.open': 'file'}
TEMP_FUNCS = {'tempfile.mkdtemp': 'tempdir', 'tempfile.TemporaryDirectory': 'tempdirctx', 'tempfile.mkstemp': 'tempfile'}


def alloc_res(ip, kind, a, node, st, fr, labs):
    h = HObj('res', kind, {'closed': const(False), 'path': a.pos[0] if a.pos else TOP}, None, E, labs)
    ref = ip.alloc(node, fr, st, h, 'res')
    return V(o=frozenset([ref]), lab=labs)


def shallow_iter(ip, v, st, fr, node):
    """(known list or None, elem)"""
    seq = ip.known_seq(v, st, fr)
    if seq is not None:
        return seq, None
    return None, ip.elem_of(v, st, fr, node)


def deep_copy(ip, v, st, node, fr, memo=None, keep_idt=False, tag='copy'):
    if memo is None:
        memo = {}
    no = set()
    for o in v.o:
        if isinstance(o, Ref):
            if o.id in memo:
                no.add(memo[o.id])
                continue
            h = ip.hget(st, o)
            if h is None:
                no.add(o)
                continue
            r = Ref(('copy', o.id, getattr(node, 'lineno', 0), tag))
            if isinstance(o.id, tuple) and o.id and o.id[0] == 'copy' and len(str(o.id)) > 400:
                r = o
            memo[o.id] = r
            f = {k: deep_copy(ip, x, st, node, fr, memo, keep_idt, tag) for k, x in h.fields.items()}
            e = deep_copy(ip, h.elem, st, node, fr, memo, keep_idt, tag) if h.elem is not None else None
            ip.hset(st, r, HObj(h.kind, h.cls, f, e, E, h.lab))
            no.add(r)
        elif isinstance(o, T) and o.tag == 'tuple':
            no.add(T('tuple', tuple(deep_copy(ip, x, st, node, fr, memo, keep_idt, tag) for x in o.a[0])))
        else:
            no.add(o)
    return V(v.c, frozenset(no), v.top, v.kind, E, v.lab, v.idt if keep_idt else None)


def init_params(ip, cls):
    """parameter names of __init__ of a program class or modelled external class"""
    m = ip.class_lookup(cls, '__init__')
    if isinstance(m, V):
        for f in m.o:
            if isinstance(f, Func):
                ar = f.node.args
                return [x.arg for x in (ar.posonlyargs + ar.args)[1:] + ar.kwonlyargs]
    if isinstance(m, Ext):
        if m.name in NN_INIT:
            return NN_INIT[m.name]
        if 'MLP' in m.name:
            return MLP_INIT
    return []


# ---------------------------------------------------------------- ext calls
def ext_call(ip, name, a, node, st, fr):
    from .interp import Args, Dead
    if name.startswith('builtins.'):
        return builtin_call(ip, name[9:], a, node, st, fr)
    labs = lab_of(ip, a, st)
    short_ = name.rsplit('.', 1)[-1]
    if name.startswith('numba.') and (short_ in NUMBA_DECO):
        if a.pos and any(is_callable_obj(o) for o in a.pos[0].o):
            return a.pos[0]
        return obj(T('deco'))
    if name == 'numba.prange':
        return builtin_call(ip, 'range', a, node, st, fr)
    if name in ('functools.partial', 'functools.partialmethod'):
        if not a.pos:
            return TOP
        return obj(T('partial', a.pos[0], tuple(a.pos[1:]), tuple(sorted(a.kw.items()))))
    if name in ('functools.wraps', 'functools.update_wrapper'):
        return obj(T('deco'))
    if name in ('functools.lru_cache', 'functools.cache'):
        if a.pos and any(is_callable_obj(o) for o in a.pos[0].o):
            return a.pos[0]
        return obj(T('deco'))
    if name == 'contextlib.suppress':
        return obj(T('suppress'))
    if name == 'contextlib.closing':
        return a.pos[0] if a.pos else TOP
    if name in ('joblib.delayed',):
        return obj(T('delayed', a.pos[0])) if a.pos else TOP
    if name in ('joblib.Parallel',):
        ra = a.kw.get('return_as')
        unordered = False
        if ra is not None:
            unordered = ra.top or any(isinstance(c, str) and 'unordered' in c for c in ra.consts)
        return V(o=frozenset([T('parallel', const(bool(unordered)), a.kw.get('require', NONEV),
                                a.kw.get('n_jobs', a.pos[0] if a.pos else NONEV))]))
    if short_ == 'check_is_fitted':
        ip.in_fitcheck += 1
        try:
            return check_is_fitted(ip, a, node, st, fr)
        finally:
            ip.in_fitcheck -= 1
    if short_ in ('NotFittedError',) or short_.endswith('Error') or short_.endswith('Warning') or short_.endswith('Exception'):
        return obj(T('excinst', short_))
    if name in ('copy.deepcopy',):
        if not a.pos:
            return TOP
        return deep_copy(ip, a.pos[0], st, node, fr)
    if name in ('copy.copy',):
        return shallow_copy(ip, a.pos[0], st, node, fr) if a.pos else TOP
    if name == 'inspect.signature' and a.pos:
        ip.implicit(st, fr)
        fs = a.pos[0].o
        if len(fs) == 1 and not a.pos[0].top:
            (f,) = fs
            if isinstance(f, Func) and isinstance(f.node, (ast.FunctionDef, ast.Lambda)):
                g = f.node.args
                ns = [x.arg for x in g.posonlyargs + g.args + g.kwonlyargs] + [x.arg for x in (g.vararg, g.kwarg) if x is not None]
                d = ip.new_dict({n: TOP for n in ns}, None, st, fr, node)
                return V(o=frozenset([ip.alloc(node, fr, st, HObj('inst', None, {'parameters': d}, None, E, E), 'sig')]), lab=labs)
        return V(top=True, kind='any', lab=labs)
    if name in ('inspect.getfullargspec', 'inspect.getsource', 'inspect.isfunction', 'inspect.isclass'):
        ip.implicit(st, fr)
        return V(top=True, kind='any', lab=labs)
    if name == 'sklearn.base.clone':
        return clone(ip, a.pos[0], st, node, fr) if a.pos else TOP
    if name in OPEN_FUNCS:
        ip.implicit(st, fr)
        return alloc_res(ip, OPEN_FUNCS[name], a, node, st, fr, labs)
    if name in TEMP_FUNCS:
        ip.implicit(st, fr)
        return alloc_res(ip, TEMP_FUNCS[name], a, node, st, fr, labs)
    if short_ == 'import_module':
        ok, k = a.pos[0].single_const() if a.pos else (False, None)
        if ok and isinstance(k, str):
            if k.split('.')[0] in ip.p.absent:
                ip.raise_('ModuleNotFoundError', st, fr)
                raise Dead()
            return obj(Ext(k))
        cs = [c for c in (a.pos[0].consts if a.pos else []) if isinstance(c, str)]
        ip.raise_('ModuleNotFoundError', st, fr)
        return TOP
    if short_ == 'check_random_state':
        v = a.pos[0] if a.pos else a.kw.get('seed', NONEV)
        l = set(labs)
        if NONE in v.c:
            l.add(('rng', 'global'))
        return V(top=True, kind='rng', own=v.own, lab=frozenset(l))
    if name in ('numpy.random.RandomState', 'numpy.random.default_rng'):
        v = a.pos[0] if a.pos else a.kw.get('seed', NONEV)
        l = set(labs)
        if NONE in v.c:
            l.add(('rng', 'fresh'))
        return V(top=True, kind='rng', lab=frozenset(l))
    # ---- effects
    if 'out' in a.kw:
        o = a.kw['out']
        if o.top and o.own:
            ip.h.write(ip, o.own, node, fr, 'out= argument of ' + short_, o)
    if name in MUT0 and a.pos:
        ip.mutate(a.pos[0], st, fr, node, 'argument of ' + short_)
    if name.startswith('torch.') and short_.endswith('_') and not short_.endswith('__') and a.pos:
        ip.mutate(a.pos[0], st, fr, node, 'argument of ' + short_)
    if name == 'builtins.setattr':
        pass
    ip.implicit(st, fr)
    if name not in PURE:
        labs = labs | run_callbacks(ip, a, node, st, fr, labs)
    kind = out_kind(name)
    if kind == 'none':
        return NONEV
    if 'out' in a.kw and (a.kw['out'].top):
        return a.kw['out'].addlab(labs)
    if 'out' in a.kw and a.kw['out'].o and not a.kw['out'].top:
        return V(top=True, kind=kind, lab=labs)
    # ---- aliasing results
    own = E
    x = a.pos[0] if a.pos else (a.kw.get('a') or a.kw.get('x') or a.kw.get('array') or a.kw.get('X') or a.kw.get('input') or a.kw.get('object') or BOT)
    if name.startswith('numpy.') and short_ in ALIAS0 or name.startswith('torch.') and short_ in TORCH_ALIAS0:
        own = ip.deep_own(x, st) if short_ not in ('asarray', 'asanyarray', 'ascontiguousarray') or not is_pylist(ip, x, st) else E
        if short_ in ('broadcast_arrays', 'atleast_1d', 'atleast_2d', 'atleast_3d'):
            for y in a.pos[1:]:
                own = own | y.own
        cp = a.kw.get('copy')
        if cp is not None and cp.single_const() == (True, True):
            own = E
        if short_ == 'asarray' and 'dtype' in a.kw and False:
            own = E
        if short_ == 'diag' and name.startswith('torch'):
            own = E
        if short_ == 'from_numpy':
            own = x.own
    elif name in ('numpy.array', 'torch.tensor'):
        cp = a.kw.get('copy')
        if cp is not None and cp.single_const() != (True, True):
            own = x.own
    elif name == 'numpy.nan_to_num':
        cp = a.kw.get('copy') or (a.pos[1] if len(a.pos) > 1 else None)
        if cp is not None and cp.single_const() != (True, True):
            own = x.own
            if x.own:
                ip.h.write(ip, x.own, node, fr, 'nan_to_num(copy=False)', x)
    elif name in SK_ALIAS:
        own = x.own
        cp = a.kw.get('copy')
        if cp is not None and cp.single_const() == (True, True):
            own = E
        if short_ in ('check_X_y', 'indexable'):
            vs = []
            for y in a.pos[:2]:
                vs.append(V(top=True, kind='nd', own=own if y is x else y.own, lab=y.lab))
            while len(vs) < 2:
                k = 'X' if not vs else 'y'
                y = a.kw.get(k, TOP)
                vs.append(V(top=True, kind='nd', own=y.own, lab=y.lab))
            return obj(T('tuple', tuple(vs)))
    elif name.startswith('pandas.') and short_ in ('DataFrame', 'Series', 'Index'):
        own = E         # copy-on-write / copying constructors
    elif name.startswith('h5py.') or short_ in ('TimeSeries',):
        own = E
    if kind == 'nd' and own and x.top and x.kind == 'tt':
        kind = 'any'
    if short_ in ('nonzero', 'where', 'meshgrid', 'broadcast_arrays', 'split', 'hsplit', 'array_split', 'unique',
                  'eigh', 'svd', 'lstsq', 'triu_indices', 'tril_indices', 'indices') and kind in ('nd', 'tt'):
        # array or tuple/list of arrays
        return V(top=True, kind=kind, own=own, lab=labs)
    if kind == 'nd' and short_ in ('array', 'asarray') and x.top and x.kind in ('num', 'int', 'str') and False:
        kind = 'nd'
    return V(top=True, kind=kind, own=own, lab=labs)


def is_pylist(ip, x, st):
    """definitely a Python list/tuple/number (asarray makes a new array)"""
    if x.top and x.kind not in ('num', 'int', 'shape', 'bool'):
        return False
    for o in x.o:
        if isinstance(o, Ref):
            h = ip.hget(st, o)
            if h is None or h.kind not in ('list', 'set', 'dict'):
                return False
        elif isinstance(o, T) and o.tag == 'tuple':
            pass
        else:
            return False
    return True


def shallow_copy(ip, v, st, node, fr):
    no = set()
    own = v.own
    for o in v.o:
        if isinstance(o, Ref):
            h = ip.hget(st, o)
            if h is None:
                no.add(o)
                continue
            r = ip.alloc(node, fr, st, HObj(h.kind, h.cls, dict(h.fields), h.elem, E, h.lab), 'shallow%s' % (str(o.id)[:60],))
            no.add(r)
        else:
            no.add(o)
    return V(v.c, frozenset(no), v.top, v.kind, E, v.lab)


def clone(ip, v, st, node, fr):
    """sklearn.base.clone: new instance with cloned hyper-parameters"""
    no = set()
    for o in v.o:
        if isinstance(o, Ref):
            h = ip.hget(st, o)
            if h is not None and h.kind == 'inst' and isinstance(h.cls, Cls):
                ps = init_params(ip, h.cls)
                f = {}
                for p in ps:
                    if p in h.fields:
                        w = h.fields[p]
                        f[p] = deep_copy(ip, w.with_(c=w.c - {ABSENT}), st, node, fr, keep_idt=False, tag='clone')
                from .interp import Args
                r = ip.instantiate(h.cls, Args([], f), node, st, fr)
                no |= r.o
                continue
            if h is not None:
                no |= deep_copy(ip, V(o=frozenset([o])), st, node, fr).o
                continue
        no.add(o)
    return V(v.c, frozenset(no), v.top, v.kind, E, v.lab)


def check_is_fitted(ip, a, node, st, fr):
    from .interp import Args, Dead
    est = a.pos[0] if a.pos else a.kw.get('estimator', TOP)
    attrs = a.pos[1] if len(a.pos) > 1 else a.kw.get('attributes', NONEV)
    aoa = a.kw.get('all_or_any')
    use_any = aoa is not None and any(isinstance(o, Ext) and o.name.endswith('.any') for o in aoa.o)
    names = None
    cs = attrs.consts
    if attrs.top:
        ip.raise_('NotFittedError', st, fr)
        return NONEV
    strs = [c for c in cs if isinstance(c, str)]
    if strs:
        names = strs
    else:
        for o in attrs.o:
            seq = ip.key_seq(o, st)
            if seq is not None:
                names = [k for x in seq for k in x.consts if isinstance(k, str)]
    if names == []:
        names = None
    ok = False
    for o in est.o:
        if not isinstance(o, Ref):
            ok = True
            continue
        h = ip.hget(st, o)
        if h is None or h.kind != 'inst':
            ok = True
            ip.raise_('NotFittedError', st, fr)
            continue
        if names is None:
            m = ip.class_lookup(h.cls, '__sklearn_is_fitted__') if isinstance(h.cls, Cls) else None
            if isinstance(m, V):
                v = ip.call_value(ip.bind_method(m, obj(o), h.cls), Args(), node, st, fr)
                t, f = ip.truth(v, st)
                if f:
                    ip.raise_('NotFittedError', st, fr)
                ok = ok or t
                continue
            cand = [k for k in h.fields if isinstance(k, str) and k.endswith('_') and not k.startswith('__')]
            sure = any(ABSENT not in h.fields[k].c for k in cand)
            maybe = h.elem is not None or any(not h.fields[k].with_(c=h.fields[k].c - {ABSENT}).bottom for k in cand)
            if not sure:
                ip.raise_('NotFittedError', st, fr)
            ok = ok or sure or maybe
            for k in cand:
                ip.h.attr_load(ip, o, h, k, h.fields[k], node, fr)
            continue
        present = []
        nf = h.fields
        for k in names:
            if k in h.fields:
                x = h.fields[k]
                rest = x.with_(c=x.c - {ABSENT})
                if rest.bottom:
                    present.append('no' if h.elem is None else 'maybe')
                elif ABSENT in x.c:
                    present.append('maybe')
                else:
                    present.append('yes')
                ip.h.attr_load(ip, o, h, k, rest, node, fr)
            else:
                m = ip.class_lookup(h.cls, k) if isinstance(h.cls, Cls) else None
                if isinstance(m, V):
                    props = [p for p in m.o if isinstance(p, Func) and p.kindf == 'property']
                    if props:
                        acc0 = fr.accs
                        from .interp import Acc
                        fr.accs = [Acc()]
                        try:
                            ip.call_func(props[0], Args([obj(o)]), node, st, fr)
                            present.append('maybe' if fr.accs[0].d else 'yes')
                        except Dead:
                            present.append('no')
                        finally:
                            fr.accs = acc0
                    else:
                        present.append('yes')
                else:
                    present.append('no' if h.elem is None else 'maybe')
        if use_any:
            sure = 'yes' in present
            poss = sure or 'maybe' in present
        else:
            sure = all(p == 'yes' for p in present)
            poss = 'no' not in present
        if not sure:
            ip.raise_('NotFittedError', st, fr)
        if poss:
            ok = True
            if not use_any:
                f = dict(h.fields)
                ch = False
                for k in names:
                    if k in f and ABSENT in f[k].c:
                        f[k] = f[k].with_(c=f[k].c - {ABSENT})
                        ch = True
                if ch and len(est.o) == 1:
                    ip.hset(st, o, h.with_(fields=f))
    if est.top:
        ip.raise_('NotFittedError', st, fr)
        ok = True
    if not ok:
        raise Dead()
    return NONEV


def parallel_call(ip, o, a, node, st, fr):
    labs = lab_of(ip, a, st)
    x = a.pos[0] if a.pos else TOP
    ip.implicit(st, fr)
    unordered = o.a[0].single_const()[1]
    seq = ip.known_seq(x, st, fr)
    lab = frozenset([('unordered',)]) if unordered else E
    hook = getattr(ip.h, 'parallel', None)
    if hook is not None:
        hook(ip, o, x, node, fr, st)
    if seq is not None and not unordered:
        return ip.new_list(seq, None, st, fr, node)
    e = ip.elem_of(x, st, fr, node)
    return ip.new_list(None, e.addlab(lab), st, fr, node, lab=lab)


def mark_task_args(ip, a, node, st, fr):
    from .interp import Args
    if not getattr(ip, 'mark_tasks', False):
        return a
    def mk(v, i):
        r = frozenset([('task', i)])
        for o in v.o:
            if isinstance(o, Ref):
                h = ip.hget(st, o)
                if h is not None and h.kind in ('list', 'dict', 'set', 'inst') and not r <= h.own:
                    ip.hset(st, o, h.with_(own=h.own | r))
        if v.top and v.kind not in ('num', 'int', 'bool', 'str', 'shape'):
            return v.with_(own=v.own | r)
        return v.addlab(frozenset([('taskarg',)])) if v.kind in ('num', 'int') else v
    return Args([mk(v, i) for i, v in enumerate(a.pos)], {k: mk(v, k) for k, v in a.kw.items()}, a.star, a.dstar)


def mark_task_env(ip, fv, st):
    """every object that exists when the task starts, and everything its
    function captured, belongs to the other tasks as well"""
    if not getattr(ip, 'mark_tasks', False):
        return fv
    r = frozenset([('task', 'shared')])
    hp = dict(st.heap)
    for k, h in hp.items():
        if h.kind in ('list', 'dict', 'set', 'inst') and not r <= h.own:
            f = {a: mark_top(v, r) if isinstance(v, V) else v for a, v in h.fields.items()}
            hp[k] = h.with_(own=h.own | r, fields=f, elem=mark_top(h.elem, r) if h.elem is not None else None)
    st.heap = hp
    os = []
    for o in fv.o:
        if isinstance(o, Func) and o.clo:
            o = Func(o.node, o.mod, o.qual, frozenset((n, mark_top(v, r)) for n, v in o.clo), o.cls, o.kindf, o.defaults)
        os.append(o)
    return fv.with_(o=frozenset(os))


def unmark_task(ip, v, st):
    if not getattr(ip, 'mark_tasks', False) or ip.task > 1:
        return v

    def un(own):
        return frozenset(x for x in own if not (isinstance(x, tuple) and x and x[0] == 'task')) if own else own

    def uv(x):
        if not isinstance(x, V):
            return x
        n = un(x.own)
        return x.with_(own=n) if n != x.own else x
    hp = dict(st.heap)
    for k, h in hp.items():
        hp[k] = h.with_(own=un(h.own), fields={a: uv(x) for a, x in h.fields.items()}, elem=uv(h.elem) if h.elem is not None else None)
    st.heap = hp
    return strip(uv(v), ('taskarg',))


def mark_top(v, r):
    if v.top and v.kind not in ('num', 'int', 'bool', 'str', 'shape', 'dtype') and not v.kind.startswith('str'):
        return v.with_(own=v.own | r)
    return v


def unknown_call(ip, fv, a, node, st, fr):
    """call of an unknown callable (user callback, external object)"""
    labs = lab_of(ip, a, st) | fv.lab
    ip.implicit(st, fr)
    hook = getattr(ip.h, 'unknown_call', None)
    if hook is not None:
        hook(ip, fv, a, node, fr, st)
    labs = labs | run_callbacks(ip, a, node, st, fr, labs)
    return V(top=True, lab=labs)


# ---------------------------------------------------------------- builtins
ORDER_FREE = {'set', 'frozenset', 'max', 'min', 'len', 'any', 'all', 'sorted'}


def builtin_call(ip, n, a, node, st, fr):
    r = builtin_call_(ip, n, a, node, st, fr)
    if ip.track_order and n in ORDER_FREE and r is not None:
        r = strip(strip(r, ('setorder',)), ('unordered',))
        if r.o:
            for o in r.o:
                h = ip.hget(st, o) if isinstance(o, Ref) else None
                if h is not None and h.kind in ('list', 'set'):
                    ip.hset(st, o, h.with_(fields={k: strip(v, ('setorder',)) for k, v in h.fields.items()},
                                           elem=strip(h.elem, ('setorder',)), lab=h.lab - {('setorder',)}))
    return r


def builtin_call_(ip, n, a, node, st, fr):
    from .interp import Args, Dead, BUILTIN_EXC
    labs = lab_of(ip, a, st)
    p = a.pos
    x = p[0] if p else (a.star if a.star is not None else BOT)
    if n in BUILTIN_EXC:
        return obj(T('excinst', n))
    if n == 'isinstance' and len(p) == 2:
        t, f = isinstance_split(ip, p[0], p[1], st)
        if t is None:
            return V(c=frozenset([('b', True), ('b', False)]), lab=p[0].lab)
        return ip.boolv(not t.bottom, not f.bottom, p[0].lab)
    if n == 'issubclass' and len(p) == 2:
        return BOOL
    if n == 'callable':
        t = f = False
        for o in x.o:
            if isinstance(o, (Func, Cls)) or (isinstance(o, T) and o.tag in ('bound', 'partial', 'xmeth', 'cmeth', 'xbase', 'deco', 'delayed')):
                t = True
            elif isinstance(o, Ref):
                h = ip.hget(st, o)
                if h is not None and h.kind == 'inst':
                    m = ip.class_lookup(h.cls, '__call__') if isinstance(h.cls, Cls) else None
                    if m is not None:
                        t = True
                    else:
                        f = True
                else:
                    f = True
            elif isinstance(o, T) and o.tag == 'tuple':
                f = True
            else:
                t = f = True
        if x.c - {ABSENT}:
            f = True
        if x.top:
            if x.kind in ('nd', 'tt', 'num', 'int', 'str', 'bool', 'shape', 'rng', 'dtype', 'cmp'):
                f = True
            else:
                t = f = True
        return ip.boolv(t, f, x.lab)
    if n == 'hasattr' and len(p) >= 2:
        return hasattr_(ip, p[0], p[1], st, fr, node)
    if n == 'getattr' and len(p) >= 2:
        cs = [c for c in p[1].consts if isinstance(c, str)]
        out = BOT
        if not cs or p[1].top:
            # unknown attribute name: any attribute
            for o in p[0].o:
                if isinstance(o, Ref):
                    h = ip.hget(st, o)
                    if h is not None:
                        for k, f in h.fields.items():
                            out = join(out, f.with_(c=f.c - {ABSENT}))
                            if h.kind == 'inst' and isinstance(k, str):
                                ip.h.attr_load(ip, o, h, k, f, node, fr)
            if not ip.known_dyn(p[1]):
                out = join(out, V(top=True, own=p[0].own, lab=p[0].lab))
        for c in cs:
            if len(p) > 2:
                s = st.copy()
                from .interp import Acc
                fr.accs.append(Acc())
                try:
                    v = ip.getattr_(p[0], c, s, fr, node, quiet=True)
                    missing = 'AttributeError' in fr.accs[-1].d
                except Dead:
                    v, missing = BOT, True
                fr.accs.pop()
                has = hasattr_(ip, p[0], const(c), st, fr, node)
                t, f = ip.truth(has, st)
                if t:
                    out = join(out, v)
                if f or v.bottom:
                    out = join(out, p[2])
            else:
                try:
                    out = join(out, ip.getattr_(p[0], c, st, fr, node))
                except Dead:
                    continue
        if out.bottom:
            raise Dead()
        return out
    if n == 'setattr' and len(p) == 3:
        cs = [c for c in p[1].consts if isinstance(c, str)]
        if cs and not p[1].top and len(cs) == 1:
            ip.setattr_(p[0], cs[0], p[2], st, fr, node)
        else:
            for c in cs:
                s = st.copy()
                ip.setattr_(p[0], c, p[2], s, fr, node)
                st.heap = join_heap(st.heap, s.heap)
            if p[1].top:
                open_attr(ip, p[0], p[2], st)
                hook = getattr(ip.h, 'dyn_setattr', None)
                if hook is not None:
                    hook(ip, p[0], p[1], p[2], node, fr, st)
        return NONEV
    if n == 'delattr' and len(p) == 2:
        for c in p[1].consts:
            if isinstance(c, str):
                ip.delattr_(p[0], c, st, fr, node)
        return NONEV
    if n == 'type':
        if len(p) == 1:
            out = BOT
            for o in x.o:
                if isinstance(o, Ref):
                    h = ip.hget(st, o)
                    if h is not None and h.kind == 'inst' and isinstance(h.cls, Cls):
                        out = join(out, obj(h.cls))
                        continue
                    if h is not None and h.kind in ('list', 'dict', 'set'):
                        out = join(out, obj(Ext('builtins.' + h.kind)))
                        continue
                if isinstance(o, T) and o.tag == 'tuple':
                    out = join(out, obj(Ext('builtins.tuple')))
                    continue
                out = join(out, obj(T('typeof', V(o=frozenset([o])))))
            for c in x.c:
                if c[0] in PYTYPES:
                    out = join(out, obj(Ext('builtins.' + PYTYPES[c[0]])))
            if x.top:
                out = join(out, obj(T('typeof', V(top=True, kind=x.kind))))
            return out.addlab(x.lab)
        return TOP
    if n == 'vars':
        out = BOT
        for o in x.o:
            if isinstance(o, Ref):
                h = ip.hget(st, o)
                if h is not None and h.kind == 'inst':
                    out = join(out, obj(T('vars', o)))
                    continue
            out = join(out, top(own=x.own, lab=x.lab))
        if x.top or out.bottom:
            out = join(out, top(own=x.own, lab=x.lab))
        return out
    if n == 'dir':
        out = BOT
        names = []
        for o in x.o:
            if isinstance(o, Ref):
                h = ip.hget(st, o)
                if h is not None and h.kind == 'inst' and isinstance(h.cls, Cls):
                    ns = {}
                    for k, f in h.fields.items():
                        if isinstance(k, str):
                            ns[k] = const(k) if ABSENT not in f.c else join(const(k), ABSENTV)
                    for b in h.cls.mro():
                        if isinstance(b, Cls):
                            for k in b.attrs:
                                ns[k] = const(k)
                        else:
                            for k in BASE_METHODS.get(b.name, ()):
                                ns[k] = const(k)
                    names = [ns[k] for k in sorted(ns)]
        if names and len(x.o) == 1 and not x.top:
            return ip.new_list(names, None, st, fr, node)
        return ip.new_list(None, STR, st, fr, node)
    if n in ('str', 'repr'):
        return str_of(ip, x, labs) if p else const('')
    if n == 'len':
        seq = ip.known_seq(x, st, fr) if p else None
        if seq is not None:
            return const(len(seq), x.lab)
        ok, k = x.single_const()
        if ok and isinstance(k, str):
            return const(len(k), x.lab)
        if not x.top and x.o == E and x.c and all(c[0] != 's' for c in x.c):
            ip.raise_('TypeError', st, fr)
            raise Dead()
        return V(top=True, kind='int', lab=labs)
    if n == 'range':
        ks = [v.single_const() for v in p]
        if all(k[0] and isinstance(k[1], int) for k in ks) and ks:
            r = range(*[k[1] for k in ks])
            if len(r) <= 16:
                return ip.new_list([const(i, labs) for i in r], None, st, fr, node)
        kk = V(top=True, kind='int', lab=labs)
        return ip.new_list(None, kk, st, fr, node)
    if n == 'enumerate':
        seq, e = shallow_iter(ip, x, st, fr, node)
        if seq is not None:
            return ip.new_list([obj(T('tuple', (const(i), v))) for i, v in enumerate(seq)], None, st, fr, node)
        return ip.new_list(None, obj(T('tuple', (INT, e))), st, fr, node)
    if n == 'zip':
        seqs = [ip.known_seq(v, st, fr) for v in p]
        if p and all(s is not None for s in seqs) and a.star is None:
            m = min(len(s) for s in seqs)
            return ip.new_list([obj(T('tuple', tuple(s[i] for s in seqs))) for i in range(m)], None, st, fr, node)
        if a.star is not None:
            e = ip.elem_of(a.star, st, fr, node)
            return ip.new_list(None, ip.new_list(None, e, st, fr, node), st, fr, node)
        es = tuple(ip.elem_of(v, st, fr, node) for v in p)
        return ip.new_list(None, obj(T('tuple', es)), st, fr, node)
    if n in ('map', 'filter'):
        e = join_all([ip.elem_of(v, st, fr, node) for v in p[1:]])
        fv = x
        if n == 'filter':
            return ip.new_list(None, e, st, fr, node)
        try:
            r = ip.call_value(fv, Args([ip.elem_of(v, st, fr, node) for v in p[1:]]), node, st, fr)
        except Dead:
            r = BOT
        return ip.new_list(None, r, st, fr, node)
    if n in ('list', 'tuple', 'sorted', 'set', 'frozenset', 'reversed', 'iter'):
        if not p:
            if n == 'tuple':
                return obj(T('tuple', ()))
            return ip.new_list([], None, st, fr, node, 'set' if n in ('set', 'frozenset') else 'list')
        ip.h.iterate(ip, x, node, fr, st, ) if n in ('list', 'tuple') else None
        seq, e = shallow_iter(ip, x, st, fr, node)
        if n == 'iter':
            return x
        key = a.kw.get('key')
        if key is not None and key.o:
            ee = e if seq is None else join_all(seq)
            try:
                ip.call_value(key, Args([ee]), node, st, fr)
            except Dead:
                pass
        if seq is not None:
            if n == 'tuple':
                return obj(T('tuple', tuple(seq)))
            if n == 'list':
                return ip.new_list(seq, None, st, fr, node)
            if n == 'reversed':
                return ip.new_list(seq[::-1], None, st, fr, node)
            if n == 'sorted':
                if all(v.single_const()[0] and isinstance(v.single_const()[1], str) for v in seq):
                    return ip.new_list(sorted(seq, key=lambda v: v.single_const()[1]), None, st, fr, node)
                return ip.new_list(None, strip(join_all(seq), ('setorder',)), st, fr, node)
            return ip.new_list(seq, None, st, fr, node, 'set')
        return ip.new_list(None, strip(e, ('setorder',)) if n == 'sorted' else e, st, fr, node, 'set' if n in ('set', 'frozenset') else 'list')
    if n == 'dict':
        f, el = {}, None
        if p:
            f, el = ip.dict_items(x, st)
            f = dict(f)
            isd = [o for o in x.o if isinstance(o, Ref) and ip.hget(st, o) is not None and ip.hget(st, o).kind == 'dict']
            if x.o and not isd and not any(isinstance(o, T) and o.tag == 'vars' for o in x.o):
                seq = ip.known_seq(x, st, fr)
                f, el = {}, None
                if seq is not None:
                    for t in seq:
                        kv = ip.known_seq(t, st, fr)
                        if kv is not None and len(kv) == 2 and kv[0].single_const()[0]:
                            f[kv[0].single_const()[1]] = kv[1]
                        else:
                            el = join(el, ip.elem_of(t, st, fr, node))
                else:
                    e = ip.elem_of(x, st, fr, node)
                    el = ip.elem_of(e, st, fr, node)
        f.update(a.kw)
        if a.dstar is not None:
            el = join(el, a.dstar)
        return ip.new_dict(f, el, st, fr, node)
    if n in ('min', 'max', 'sum', 'abs', 'round', 'pow', 'divmod'):
        ks = [v.single_const() for v in p]
        if n in ('min', 'max', 'abs', 'round') and ks and all(k[0] and isinstance(k[1], (int, float)) for k in ks) and not (len(p) == 1 and n in ('min', 'max')):
            try:
                return const({'min': min, 'max': max, 'abs': abs, 'round': round}[n](*[k[1] for k in ks]), labs)
            except Exception:
                pass
        key = a.kw.get('key')
        if n in ('min', 'max'):
            r = join_all([ip.elem_of(p[0], st, fr, node)] if len(p) == 1 else p)
            if key is not None and key.o:
                try:
                    ip.call_value(key, Args([r]), node, st, fr)
                except Dead:
                    pass
            if len(p) == 1:
                ip.implicit(st, fr)
            if r.c and not r.top and not r.o or len(r.c) > 0:
                r = V(c=E, o=r.o, top=True, kind=join_kind(r.kind if r.top else 'num', 'num'), own=r.own, lab=r.lab)
            return r.addlab(labs)
        k = 'num'
        if any(v.top and v.kind in ('nd', 'tt', 'any') or v.o for v in p):
            k = join_all([V(top=True, kind=v.kind) for v in p if v.top]).kind if n != 'sum' else 'any'
            if k not in ('nd', 'tt', 'num', 'int'):
                k = 'any'
        return V(top=True, kind=k, lab=labs)
    if n in ('int', 'float', 'bool'):
        if not p:
            return const({'int': 0, 'float': 0.0, 'bool': False}[n])
        if n == 'bool':
            t, f = ip.truth(x, st)
            return ip.boolv(t, f, labs)
        ok, k = x.single_const()
        if ok:
            try:
                return const({'int': int, 'float': float}[n](k), labs)
            except Exception:
                ip.raise_('ValueError' if isinstance(k, str) else 'TypeError', st, fr)
                raise Dead()
        ip.implicit(st, fr)
        return V(top=True, kind='int' if n == 'int' else 'num', lab=labs)
    if n in ('any', 'all'):
        return V(top=True, kind='bool', lab=labs)
    if n == 'next':
        r = ip.elem_of(x, st, fr, node)
        if len(p) > 1:
            r = join(r, p[1])
        else:
            ip.raise_('StopIteration', st, fr)
        return r
    if n == 'open':
        ip.implicit(st, fr)
        return alloc_res(ip, 'file', a, node, st, fr, labs)
    if n == 'print':
        return NONEV
    if n in ('slice',):
        vs = list(p) if len(p) != 1 else [NONEV, p[0]]
        while len(vs) < 3:
            vs.append(NONEV)
        return V(o=frozenset([T('slice', *vs[:3])]), lab=labs)
    if n in ('staticmethod', 'classmethod', 'property'):
        out = BOT
        for o in x.o:
            if isinstance(o, Func):
                out = join(out, obj(Func(o.node, o.mod, o.qual, o.clo, o.cls, {'staticmethod': 'static', 'classmethod': 'class', 'property': 'property'}[n], o.defaults)))
        return out if not out.bottom else x
    if n == 'object':
        return TOP
    if n in ('ord', 'hash', 'id'):
        return V(top=True, kind='int', lab=labs)
    if n == 'chr':
        return STR
    if n in ('globals', 'locals'):
        return TOP
    ip.implicit(st, fr)
    return V(top=True, lab=labs)


def strip(v, lab):
    if v is not None and lab in v.lab:
        return v.with_(lab=v.lab - {lab})
    return v


def str_of(ip, x, labs):
    out = BOT
    for t, k in x.c:
        if t != 'absent':
            out = join(out, const(str(k)))
    for o in x.o:
        if isinstance(o, T) and o.tag == 'typeof':
            v = o.a[0]
            if v.top and v.kind == 'nd':
                out = join(out, const("<class 'numpy.ndarray'>"))
            elif v.top and v.kind == 'tt':
                out = join(out, const("<class 'torch.tensor'>"))
            elif v.top and v.kind in ('any',):
                out = join(out, const("<class 'numpy.ndarray'>" if ip.mode == 'numpy' else "<class 'torch.tensor'>"))
            else:
                out = join(out, const("<class 'object'>"))
        elif isinstance(o, Ref):
            out = join(out, STR)
        elif isinstance(o, Func):
            out = join(out, const('<function %s>' % o.qual))
        elif isinstance(o, Ext):
            out = join(out, const("<class '%s'>" % o.name.replace('builtins.', '')))
        elif isinstance(o, Cls):
            out = join(out, const("<class '%s'>" % o.qual))
        else:
            out = join(out, STR)
    if x.top:
        if x.kind == 'nd':
            out = join(out, top('str:numpy'))
        elif x.kind == 'tt':
            out = join(out, top('str:torch'))
        elif x.kind in ('any', 'cmp'):
            # text of the data: known to mention only the backend it belongs to
            out = join(out, top('str:numpy' if ip.mode == 'numpy' else 'str:torch'))
        elif x.kind in ('num', 'int', 'bool', 'shape', 'rng'):
            out = join(out, top('str:'))
        else:
            out = join(out, STR)
    if out.bottom:
        out = STR
    return out.addlab(labs)


def open_attr(ip, base, v, st):
    """an attribute of unknown name is stored: any attribute may exist and hold v"""
    for o in base.o:
        h = ip.hget(st, o) if isinstance(o, Ref) else None
        if h is not None and h.kind == 'inst':
            ip.hset(st, o, h.with_(elem=join(h.elem, v) if h.elem is not None else v))


def hasattr_(ip, v, namev, st, fr, node):
    cs = [c for c in namev.consts if isinstance(c, str)]
    if namev.top or not cs:
        return V(c=frozenset([('b', True), ('b', False)]), lab=v.lab)
    t = f = False
    hook = getattr(ip.h, 'hasattr_test', None)
    for name in cs:
        for o in v.o:
            if isinstance(o, Ref):
                h = ip.hget(st, o)
                if h is None:
                    t = f = True
                elif h.kind == 'inst':
                    if hook is not None:
                        hook(ip, o, h, name, node, fr)
                    if h.elem is not None and ABSENT in h.fields.get(name, ABSENTV).c and not (
                            isinstance(h.cls, Cls) and ip.class_lookup(h.cls, name) is not None):
                        t = f = True
                        continue
                    if name in h.fields:
                        x = h.fields[name]
                        if ABSENT in x.c:
                            f = True
                            if not x.with_(c=x.c - {ABSENT}).bottom:
                                t = True
                        else:
                            t = True
                        if f and isinstance(h.cls, Cls) and ip.class_lookup(h.cls, name) is not None:
                            t, f = True, f and t
                        continue
                    m = ip.class_lookup(h.cls, name) if isinstance(h.cls, Cls) else None
                    if isinstance(m, V):
                        if any(isinstance(q, Func) and q.kindf == 'property' for q in m.o):
                            from .interp import Acc, Args, Dead
                            acc0 = fr.accs
                            fr.accs = [Acc()]
                            s = st.copy()
                            try:
                                for q in m.o:
                                    if isinstance(q, Func) and q.kindf == 'property':
                                        ip.call_func(q, Args([obj(o)]), node, s, fr)
                                        t = True
                                if fr.accs[0].d:
                                    f = True
                            except Dead:
                                f = True
                            finally:
                                fr.accs = acc0
                        else:
                            t = True
                    elif m is not None:
                        t = True
                    elif isinstance(h.cls, Cls) and any(isinstance(b, Ext) and not closed_base(b.name) for b in h.cls.mro()):
                        t = f = True
                    else:
                        f = True
                else:
                    if name in ('__iter__', '__len__', '__getitem__', 'copy', 'index', 'count', 'append', 'keys', 'items'):
                        t = True
                    else:
                        f = True
            elif isinstance(o, Cls):
                m = ip.class_lookup(o, name)
                if m is not None or name in ('__init__', '__name__', '__doc__', '__module__', '__dict__'):
                    t = True
                elif any(isinstance(b, Ext) and not closed_base(b.name) for b in o.mro()):
                    t = f = True
                else:
                    f = True
            elif isinstance(o, T) and o.tag == 'tuple':
                if name in ('__iter__', '__len__', '__getitem__'):
                    t = True
                else:
                    f = True
            elif isinstance(o, Mod):
                if name in ip.module(o.name):
                    t = True
                else:
                    f = True
            else:
                t = f = True
        if v.top:
            if v.kind in ('nd', 'tt') and name in ('shape', 'dtype', '__array__', '__len__', '__iter__', 'ndim', 'T'):
                t = True
            elif v.kind in ('nd', 'tt', 'num', 'int', 'bool') and name in ('compute', 'keys', 'items', 'fit', 'predict'):
                f = True
            elif v.kind in ('int', 'num', 'bool') and name in ('__iter__', '__len__', '__array__', 'shape'):
                f = True
            elif v.kind == 'shape' and name in ('__iter__', '__len__'):
                t = True
            else:
                t = f = True
        for c in v.c:
            if c == ABSENT:
                continue
            if hasattr(c[1], name) and c[1] is not None or (c[1] is None and hasattr(None, name)):
                t = True
            else:
                f = True
    return ip.boolv(t, f, v.lab)


# ---------------------------------------------------------------- methods on external data
STR_METHODS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace', 'split', 'format',
               'join', 'title', 'find', 'count', 'isdigit', 'capitalize', 'rsplit', 'partition', 'encode', 'splitlines',
               'isidentifier', 'zfill', 'removeprefix', 'removesuffix', 'rfind', 'index', 'isalpha', 'isnumeric', 'islower', 'isupper', 'casefold', 'rpartition'}


def ext_method(ip, recv, name, a, node, st, fr):
    from .interp import Args, Dead
    ip.h.ext_method(ip, recv, name, a, node, fr, st)
    labs = lab_of(ip, a, st) | ip.deep_labels(recv, st)
    out = BOT
    p = a.pos
    # constants (strings)
    for t, k in recv.c:
        if t == 's':
            if all(v.single_const()[0] for v in p) and not a.kw and name in STR_METHODS and a.star is None:
                try:
                    r = getattr(k, name)(*[v.single_const()[1] for v in p])
                    if isinstance(r, list):
                        out = join(out, ip.new_list([const(x) for x in r], None, st, fr, node))
                    elif isinstance(r, tuple):
                        out = join(out, obj(T('tuple', tuple(const(x) for x in r))))
                    else:
                        out = join(out, const(r, labs))
                    continue
                except Exception:
                    out = join(out, STR)
                    continue
            if name == 'join' and p:
                out = join(out, top('str', lab=labs))
            elif name == 'format':
                if not any(not v.single_const()[0] and len(v.c) == 0 for v in list(p) + list(a.kw.values())) and 0 < len(p) <= 1 and not p[0].top and not p[0].o:
                    for c in p[0].consts:
                        try:
                            out = join(out, const(k.format(c), labs))
                        except Exception:
                            out = join(out, top('str', lab=labs))
                else:
                    out = join(out, top('str', lab=labs))
            elif name in ('split', 'splitlines', 'rsplit'):
                out = join(out, ip.new_list(None, top('str', lab=labs), st, fr, node))
            elif name in ('startswith', 'endswith', 'isdigit', 'isidentifier'):
                out = join(out, V(top=True, kind='bool', lab=labs))
            elif name in ('find', 'count', 'index', 'rfind'):
                out = join(out, V(top=True, kind='int', lab=labs))
            else:
                out = join(out, top('str', lab=labs))
        elif t not in ('absent', 'n'):
            out = join(out, V(top=True, kind='any', lab=labs))
    for o in recv.o:
        if isinstance(o, Ref):
            h = ip.hget(st, o)
            if h is not None and h.kind == 'res':
                out = join(out, res_method(ip, o, h, name, a, node, st, fr, labs))
                continue
        if isinstance(o, T) and o.tag == 'tuple':
            if name in ('index', 'count'):
                out = join(out, V(top=True, kind='int', lab=labs))
            else:
                out = join(out, top(lab=labs))
            continue
        if isinstance(o, T) and o.tag == 'vars':
            h = ip.hget(st, o.a[0])
            out = join(out, vars_method(ip, o, h, name, a, node, st, fr))
            continue
        out = join(out, V(top=True, lab=labs))
    if recv.top:
        out = join(out, top_method(ip, V(top=True, kind=recv.kind, own=recv.own, lab=recv.lab), name, a, node, st, fr, labs))
    if out.bottom:
        raise Dead()
    return out


def vars_method(ip, o, h, name, a, node, st, fr):
    if h is None:
        return TOP
    if name == 'update':
        f, el = ip.dict_items(a.pos[0], st) if a.pos else ({}, None)
        f = dict(f)
        f.update(a.kw)
        for k, v in f.items():
            if isinstance(k, str):
                ip.setattr_(obj(o.a[0]), k, v, st, fr, node)
        if el is not None:
            open_attr(ip, obj(o.a[0]), el, st)
            hook = getattr(ip.h, 'dyn_setattr', None)
            if hook is not None:
                hook(ip, obj(o.a[0]), TOP, el, node, fr, st)
        return NONEV
    if name in ('items', 'keys', 'values', 'copy', 'get', 'pop'):
        return container_kv(ip, h, name, a, node, st, fr, E)
    return TOP


def res_method(ip, o, h, name, a, node, st, fr, labs):
    if name in ('close', 'cleanup'):
        ip.hset(st, o, h.set('closed', const(True)))
        return NONEV
    hook = getattr(ip.h, 'res_use', None)
    if hook is not None:
        hook(ip, o, h, name, a, node, fr, st)
    if name == '__enter__':
        return V(o=frozenset([o]), lab=labs)
    ip.implicit(st, fr)
    if name in ('read', 'readline'):
        return V(top=True, kind='str', lab=labs)
    if name in ('readlines',):
        return ip.new_list(None, top('str', lab=labs), st, fr, node)
    if name in ('write', 'flush', 'extractall', 'writelines', 'seek'):
        return TOP
    return V(top=True, lab=labs)


def top_method(ip, recv, name, a, node, st, fr, labs):
    k = recv.kind
    p = a.pos
    if 'out' in a.kw:
        o = a.kw['out']
        if o.top and o.own:
            ip.h.write(ip, o.own, node, fr, 'out= argument of method ' + name, o)
    if k == 'rng':
        if name == 'shuffle' and p:
            ip.mutate(p[0], st, fr, node, 'argument of shuffle')
            return NONEV
        ip.implicit(st, fr)
        return V(top=True, kind='nd', lab=labs)
    if k.startswith('str:') and name in ('lower', 'upper', 'strip'):
        return V(top=True, kind=k, lab=labs)
    if k.startswith('str'):
        if name in ('split', 'splitlines', 'rsplit'):
            return ip.new_list(None, top('str', lab=labs), st, fr, node)
        if name in ('startswith', 'endswith', 'isdigit', 'isidentifier', 'isalpha'):
            return V(top=True, kind='bool', lab=labs)
        if name in ('find', 'count', 'index'):
            return V(top=True, kind='int', lab=labs)
        return V(top=True, kind='str', lab=labs)
    if k in ('num', 'int', 'bool', 'shape') :
        if name in ('numel',):
            return V(top=True, kind='int', lab=labs)
        return V(top=True, lab=labs)
    torchy_inplace = name.endswith('_') and not name.endswith('__') and not name.startswith('_') and name not in ('requires_grad_',)
    if (name in MUT_METH or torchy_inplace) and recv.own:
        if not (name in ('add',) and k in ('nd', 'tt')) and not (name in ('fit', 'fit_transform', 'fit_predict', 'set_params') and k in ('nd', 'tt')):
            if not (name in ('drop', 'fillna') and 'inplace' not in a.kw):
                ip.h.write(ip, recv.own, node, fr, 'method ' + name, recv)
    if 'inplace' in a.kw and recv.own and a.kw['inplace'].single_const() != (True, False):
        ip.h.write(ip, recv.own, node, fr, 'inplace method ' + name, recv)
    ip.implicit(st, fr)
    run_callbacks(ip, a, node, st, fr, labs)
    own = E
    kind = k if k in ('nd', 'tt') else 'any'
    if name in ALIAS_METH:
        own = recv.own
        if name in ('fit', 'partial_fit', 'set_params'):
            return recv.addlab(labs)
        if name in ('numpy', 'to_numpy'):
            kind = 'nd'
        if name in ('items',):
            e = V(top=True, own=own, lab=labs)
            return ip.new_list(None, obj(T('tuple', (V(top=True, kind='any', lab=labs), e))), st, fr, node)
        if name == 'to_numpy':
            cp = a.kw.get('copy')
            if cp is not None and cp.single_const() == (True, True):
                own = E
        if name == 'get' and len(p) > 1:
            return join(V(top=True, own=own, lab=labs), p[1])
    elif name == 'astype':
        cp = a.kw.get('copy') or (p[4] if len(p) > 4 else None)
        if cp is not None and cp.single_const() != (True, True):
            own = recv.own
    elif name in ('tolist', 'item'):
        return V(top=True, kind='any', lab=labs)
    elif name in ('size', 'dim', 'numel', 'nelement', 'get_device', 'stride'):
        return V(top=True, kind='shape' if name == 'size' and not p else 'int', lab=labs)
    elif name in ('is_floating_point', 'is_contiguous', 'is_complex'):
        return V(top=True, kind='bool', lab=labs)
    elif name in ('append', 'extend', 'sort', 'fill', 'clear', 'insert', 'close', 'update', 'add'):
        return V(top=True, c=frozenset([NONE]), lab=labs)
    elif torchy_inplace:
        own = recv.own
    elif name in ('pop', 'popitem'):
        own = recv.own
    return V(top=True, kind=kind, own=own, lab=labs)


# ---------------------------------------------------------------- methods on lists / dicts / sets
def container_kv(ip, h, name, a, node, st, fr, lab):
    p = a.pos
    known = h.elem is None and not any(ABSENT in x.c for x in h.fields.values()) and not any(isinstance(k, tuple) for k in h.fields)
    if name == 'items':
        if known:
            return ip.new_list([obj(T('tuple', (const(k), v.addlab(lab)))) for k, v in h.fields.items()], None, st, fr, node)
        e = BOT
        ks = BOT
        for k, v in h.fields.items():
            kv = obj(k[1]) if isinstance(k, tuple) and k and k[0] == 'obj' else const(k)
            ks = join(ks, kv)
            e = join(e, v.with_(c=v.c - {ABSENT}))
        if h.elem is not None:
            e = join(e, h.elem)
            ks = join(ks, top(lab=h.elem.lab))
        # keep pairs separate for known keys
        pairs = [obj(T('tuple', (obj(k[1]) if isinstance(k, tuple) and k and k[0] == 'obj' else const(k), v.with_(c=v.c - {ABSENT}).addlab(lab)))) for k, v in h.fields.items()]
        el = join_all(pairs[:12]) if len(pairs) <= 12 else obj(T('tuple', (ks, e.addlab(lab))))
        if h.elem is not None:
            el = join(el, obj(T('tuple', (V(top=True, lab=h.elem.lab | lab), h.elem.addlab(lab)))))
        return ip.new_list(None, el, st, fr, node)
    if name == 'keys':
        if known:
            return ip.new_list([const(k) for k in h.fields], None, st, fr, node)
        return ip.new_list(None, ip.elem_of(V(o=frozenset([ip.alloc(node, fr, st, h, 'tmpkeys')])), st, fr, node), st, fr, node)
    if name == 'values':
        if h.elem is None and not any(ABSENT in x.c for x in h.fields.values()):
            return ip.new_list([v.addlab(lab) for v in h.fields.values()], None, st, fr, node)
        e = join_all([v.with_(c=v.c - {ABSENT}) for v in h.fields.values()] + ([h.elem] if h.elem is not None else []))
        return ip.new_list(None, e.addlab(lab), st, fr, node)
    if name == 'get':
        return ip.dict_get(h, p[0], st, fr, node, lab, default=p[1] if len(p) > 1 else NONEV)
    if name == 'copy':
        return V(o=frozenset([ip.alloc(node, fr, st, HObj('dict', None, dict(h.fields), h.elem, E, h.lab), 'dcopy')]), lab=lab)
    if name == 'pop':
        return ip.dict_get(h, p[0], st, fr, node, lab, default=p[1] if len(p) > 1 else None) if p else TOP
    return TOP


def container_method(ip, recv, name, a, node, st, fr):
    from .interp import Args, Dead
    out = BOT
    p = a.pos
    ip.h.ext_method(ip, recv, name, a, node, fr, st)
    labs = lab_of(ip, a, st)
    for o in recv.o:
        h = ip.hget(st, o)
        if h is None:
            out = join(out, top(lab=labs | recv.lab))
            continue
        single = len(recv.o) == 1 and not recv.top
        mut = name in ('append', 'extend', 'insert', 'pop', 'popitem', 'update', 'remove', 'clear', 'reverse', 'sort', 'add', 'discard', 'setdefault', 'appendleft')
        if mut and h.own:
            ip.h.write(ip, h.own, node, fr, 'method ' + name, recv)
        if h.kind == 'dict':
            if name in ('items', 'keys', 'values', 'get', 'copy'):
                out = join(out, container_kv(ip, h, name, a, node, st, fr, recv.lab))
            elif name in ('pop',) and p:
                out = join(out, container_kv(ip, h, 'pop', a, node, st, fr, recv.lab))
                ok, k = p[0].single_const()
                f = dict(h.fields)
                if ok and single:
                    f.pop(k, None)
                elif ok and k in f:
                    f[k] = join(f[k], ABSENTV)
                ip.hset(st, o, h.with_(fields=f))
            elif name == 'update':
                f, el = ip.dict_items(p[0], st) if p else ({}, None)
                nf = dict(h.fields)
                for k, v in list(f.items()) + list(a.kw.items()):
                    if ABSENT in v.c or not single:
                        nf[k] = join(nf.get(k, ABSENTV), v)
                        if k in h.fields and ABSENT not in h.fields[k].c:
                            nf[k] = nf[k].with_(c=nf[k].c - {ABSENT})
                    else:
                        nf[k] = v
                if el is not None:
                    nf = {k: join(v, el) for k, v in nf.items()}
                ip.hset(st, o, h.with_(fields=nf, elem=join(h.elem, el) if el is not None else h.elem))
                out = join(out, NONEV)
            elif name == 'setdefault' and p:
                d = p[1] if len(p) > 1 else NONEV
                ok, k = p[0].single_const()
                if ok:
                    if k in h.fields:
                        x = h.fields[k]
                        nv = x if ABSENT not in x.c else join(x.with_(c=x.c - {ABSENT}), d)
                    elif h.elem is not None:
                        nv = join(h.elem, d)
                    else:
                        nv = d
                    ip.hset(st, o, h.set(k, nv))
                    out = join(out, nv)
                else:
                    ip.hset(st, o, h.with_(elem=join(h.elem, d)))
                    out = join(out, join(ip.elem_of(V(o=frozenset([o])), st, fr, node), d))
            elif name == 'clear':
                ip.hset(st, o, h.with_(fields={}, elem=None))
                out = join(out, NONEV)
            elif name == 'popitem':
                out = join(out, TOP)
            else:
                out = join(out, TOP)
            continue
        # list / set
        if name in ('append', 'add') and p:
            v = p[0].addlab(recv.lab) if False else p[0]
            if h.kind == 'list' and h.elem is None and single and not fr.in_loop and len(h.fields) < 60:
                ip.hset(st, o, h.set(len(h.fields), v))
            else:
                hs = ip.summarise(h)
                ip.hset(st, o, hs.with_(elem=join(hs.elem, v)))
            out = join(out, NONEV)
        elif name in ('extend', 'update') and p:
            seq = ip.known_seq(p[0], st, fr)
            if h.kind == 'list' and seq is not None and h.elem is None and single and not fr.in_loop and len(h.fields) + len(seq) < 60:
                f = dict(h.fields)
                for x in seq:
                    f[len(f)] = x
                ip.hset(st, o, h.with_(fields=f))
            else:
                e = ip.elem_of(p[0], st, fr, node)
                hs = ip.summarise(h)
                ip.hset(st, o, hs.with_(elem=join(hs.elem, e)))
            out = join(out, NONEV)
        elif name == 'insert' and len(p) > 1:
            hs = ip.summarise(h)
            ip.hset(st, o, hs.with_(elem=join(hs.elem, p[1])))
            out = join(out, NONEV)
        elif name in ('pop', 'popleft'):
            hs = ip.summarise(h)
            if hs.elem is None:
                ip.raise_('IndexError', st, fr)
                continue
            ip.hset(st, o, hs)
            out = join(out, hs.elem)
        elif name in ('remove', 'discard', 'clear', 'reverse', 'sort'):
            hs = ip.summarise(h)
            if name == 'clear' and single:
                hs = hs.with_(elem=None)
            if name == 'sort':
                hs = hs.with_(elem=strip(hs.elem, ('setorder',)))
            ip.hset(st, o, hs)
            out = join(out, NONEV)
        elif name == 'copy':
            out = join(out, V(o=frozenset([ip.alloc(node, fr, st, h.with_(own=E), 'lcopy')]), lab=recv.lab))
        elif name in ('index', 'count'):
            out = join(out, V(top=True, kind='int', lab=recv.lab | labs))
        elif name in ('union', 'intersection', 'difference', 'symmetric_difference'):
            e = ip.elem_of(V(o=frozenset([o])), st, fr, node)
            for q in p:
                e = join(e, ip.elem_of(q, st, fr, node))
            out = join(out, ip.new_list(None, e, st, fr, node, 'set'))
        elif name in ('issubset', 'issuperset', 'isdisjoint'):
            out = join(out, BOOL)
        else:
            out = join(out, top(lab=recv.lab | labs))
    if out.bottom:
        raise Dead()
    return out


# ---------------------------------------------------------------- methods inherited from external bases
def base_class_call(ip, o, a, node, st, fr):
    """ExtBase.method(self, ...) reached through a program class"""
    extname, name, cls = o.a
    if a.pos:
        for s in a.pos[0].o:
            if isinstance(s, Ref):
                from .interp import Args
                return base_method(ip, extname, name, s, Args(a.pos[1:], a.kw, a.star, a.dstar), node, st, fr)
    return TOP


def _self_call(ip, ref, meth, args, kwargs, node, st, fr):
    from .interp import Args
    m = ip.getattr_(obj(ref), meth, st, fr, node)
    return ip.call_value(m, Args(args, kwargs), node, st, fr)


def base_method(ip, extname, meth, ref, a, node, st, fr):
    from .interp import Args, Dead
    h = ip.hget(st, ref)
    labs = lab_of(ip, a, st) | (h.lab if h is not None else E)
    p = a.pos
    ip.h.ext_call(ip, extname + '.' + meth, a, node, fr, st)

    def store(name, v):
        ip.setattr_(obj(ref), name, v, st, fr, node)

    def argv(i, *names):
        if len(p) > i:
            return p[i]
        for n in names:
            if n in a.kw:
                return a.kw[n]
        return None

    if meth == '__init__':
        if extname in NN_INIT or 'MLP' in extname:
            ps = NN_INIT.get(extname) or (MLPR_INIT if extname.endswith('MLPRegressor') else MLPC_INIT)
            bound = {}
            for n, v in zip(ps, p):
                bound[n] = v
            for k, v in a.kw.items():
                bound[k] = v
            for n in ps:
                v = bound.get(n)
                if v is None:
                    v = a.dstar if a.dstar is not None else (
                        const({'n_neighbors': 5, 'radius': 1.0, 'algorithm': 'auto', 'leaf_size': 30, 'metric': 'minkowski',
                               'p': 2, 'weights': 'uniform'}.get(n)) if n in ('n_neighbors', 'radius', 'algorithm', 'leaf_size', 'metric', 'p', 'weights') else (NONEV if n in ('metric_params', 'n_jobs', 'random_state') else TOP))
                store(n, v)
        return NONEV
    if meth in ('get_params',):
        ps = init_params(ip, h.cls)
        f = {}
        for n in ps:
            try:
                f[n] = ip.getattr_(obj(ref), n, st, fr, node)
            except Dead:
                f[n] = TOP
        return ip.new_dict(f, None, st, fr, node)
    if meth == 'set_params':
        for k, v in a.kw.items():
            store(k, v)
        return obj(ref)
    if meth == 'fit_transform':
        X = argv(0, 'X') or TOP
        y = argv(1, 'y')
        kw = {k: v for k, v in a.kw.items() if k not in ('X', 'y')}
        r = _self_call(ip, ref, 'fit', [X] + ([y] if y is not None and y != NONEV else []), kw, node, st, fr)
        return ip.call_value(ip.getattr_(r, 'transform', st, fr, node), Args([X]), node, st, fr)
    if meth == 'fit_predict':
        X = argv(0, 'X') or TOP
        kw = {k: v for k, v in a.kw.items() if k not in ('X', 'y')}
        _self_call(ip, ref, 'fit', [X], kw, node, st, fr)
        return ip.getattr_(obj(ref), 'labels_', st, fr, node)
    if meth == 'score':
        X = argv(0, 'X') or TOP
        r = _self_call(ip, ref, 'predict', [X], {}, node, st, fr)
        return V(top=True, kind='num', lab=labs | ip.deep_labels(r, st))
    if meth in ('__sklearn_tags__', '_get_tags', '_more_tags'):
        return TOP
    if extname in NN_INIT:
        hv = lambda n: ip.getattr_(obj(ref), n, st, fr, node)
        if meth in ('fit', '_fit'):
            ip.implicit(st, fr)
            X = argv(0, 'X') or TOP
            y = argv(1, 'y')
            for n in NN_INIT[extname]:
                try:
                    hv(n)
                except Dead:
                    pass
            for n in NN_FIT_ATTRS:
                store(n, V(top=True, lab=labs, own=X.own if n == '_fit_X' and X.top else E))
            if 'Nearest' not in extname:
                for n in NN_SUP_ATTRS:
                    if n == 'classes_' and 'Regressor' in extname:
                        continue
                    store(n, V(top=True, lab=labs, own=(y.own if n == '_y' and y is not None and y.top else E)))
            return obj(ref)
        if meth in ('kneighbors', 'radius_neighbors', 'kneighbors_graph', 'radius_neighbors_graph'):
            X = argv(0, 'X')
            hh = ip.hget(st, ref)
            missing = False
            over = ip.class_lookup(h.cls, 'kneighbors') if meth == 'kneighbors_graph' and isinstance(h.cls, Cls) else None
            need = ['n_samples_fit_'] if isinstance(over, V) else ['n_samples_fit_', '_fit_X', '_fit_method']
            fm = hh.fields.get('_fit_method')
            if 'n_samples_fit_' in need and not isinstance(over, V) and (fm is None or fm.single_const() != (True, 'brute')):
                need += ['_tree', 'n_features_in_']
            for n in need:
                if n not in hh.fields or hh.fields[n].with_(c=hh.fields[n].c - {ABSENT}).bottom:
                    missing = True
                else:
                    v = hh.fields[n]
                    if ABSENT in v.c:
                        ip.raise_('NotFittedError', st, fr)
                    ip.h.attr_load(ip, ref, hh, n, v, node, fr)
            if missing:
                ip.raise_('NotFittedError', st, fr)
                raise Dead()
            if isinstance(over, V):
                from .interp import Args
                r = ip.call_value(ip.bind_method(over, obj(ref), h.cls), Args([X] if X is not None else [], {'return_distance': const(False)}), node, st, fr)
                return V(top=True, kind='nd', lab=r.lab | ip.deep_labels(r, st))
            labs2 = labs
            for n in NN_FIT_ATTRS:
                if n in hh.fields:
                    labs2 = labs2 | hh.fields[n].lab
            for n in ('metric', 'n_neighbors', 'n_jobs', 'metric_params', 'radius'):
                if n in hh.fields:
                    v = hv(n)
                    labs2 = labs2 | ip.deep_labels(v, st)
            mv = hh.fields.get('metric')
            if mv is not None and mv.o:
                run_callbacks(ip, Args([mv]), node, st, fr, labs2)
            ip.implicit(st, fr)
            rd = argv(2, 'return_distance')
            ind = V(top=True, kind='nd', lab=labs2)
            if meth.endswith('graph'):
                return ind
            pair = obj(T('tuple', (ind, ind)))
            if rd is None or rd.single_const() == (True, True):
                return pair
            if rd.single_const() == (True, False):
                return ind
            return join(pair, ind)
        if meth in ('predict', 'predict_proba'):
            X = argv(0, 'X') or TOP
            ip.implicit(st, fr)
            r = _self_call(ip, ref, 'kneighbors', [X], {}, node, st, fr)
            hh = ip.hget(st, ref)
            labs2 = labs | ip.deep_labels(r, st)
            if 'Classifier' in extname:
                fm = hh.fields.get('_fit_method')
                if fm is None or ABSENT in fm.c:
                    ip.raise_('NotFittedError', st, fr)
                    if fm is None or fm.with_(c=fm.c - {ABSENT}).bottom:
                        raise Dead()
                ip.h.attr_load(ip, ref, hh, '_fit_method', fm, node, fr)
            for n in NN_SUP_ATTRS if 'Classifier' in extname else ['_y']:
                labs2 = labs2 | hv(n).lab
            if 'weights' in hh.fields:
                wv = hv('weights')
                labs2 = labs2 | wv.lab
            return V(top=True, kind='nd', lab=labs2)
    if 'MLP' in extname:
        if meth in ('fit', 'partial_fit'):
            ip.implicit(st, fr)
            rs = h.fields.get('random_state', NONEV)
            for n in MLP_INIT:
                if n in h.fields:
                    labs = labs | ip.deep_labels(h.fields[n], st)
            for n in MLP_FIT_ATTRS:
                if n in ('_label_binarizer', 'classes_') and 'Regressor' in extname:
                    continue
                store(n, V(top=True, lab=labs))
            return obj(ref)
        if meth in ('predict', 'predict_proba', 'predict_log_proba'):
            hh = ip.hget(st, ref)
            for n in ('coefs_', 'intercepts_'):
                if n not in hh.fields or hh.fields[n].with_(c=hh.fields[n].c - {ABSENT}).bottom:
                    ip.raise_('NotFittedError', st, fr)
                    raise Dead()
                if ABSENT in hh.fields[n].c:
                    ip.raise_('NotFittedError', st, fr)
                ip.h.attr_load(ip, ref, hh, n, hh.fields[n], node, fr)
            ip.implicit(st, fr)
            return V(top=True, kind='nd', lab=labs)
    ip.implicit(st, fr)
    return V(top=True, lab=labs)
