"""Call signatures of the external functions the two backends expose: accepted
keyword names and the largest number of positional arguments (None: any)."""

_ufunc = ('x out where casting order dtype subok', 2)
NUMPY = {
    'abs': _ufunc, 'ceil': _ufunc, 'exp': _ufunc, 'floor': _ufunc, 'isfinite': _ufunc, 'isnan': _ufunc, 'log': _ufunc,
    'sqrt': _ufunc, 'absolute': _ufunc,
    'all': ('a axis out keepdims where', 4), 'any': ('a axis out keepdims where', 4),
    'arange': ('start stop step dtype device like', 4), 'argmax': ('a axis out keepdims', 3), 'argmin': ('a axis out keepdims', 3),
    'array': ('object dtype copy order subok ndmin ndmax like', 2), 'asarray': ('a dtype order device copy like', 3),
    'diag': ('v k', 2), 'empty': ('shape dtype order device like', 3), 'eye': ('N M k dtype order device like', 5),
    'full': ('shape fill_value dtype order device like', 4), 'hstack': ('tup dtype casting', 1), 'iscomplex': ('x', 1),
    'max': ('a axis out keepdims initial where', 6), 'mean': ('a axis dtype out keepdims where', 5),
    'median': ('a axis out overwrite_input keepdims', 5), 'min': ('a axis out keepdims initial where', 6),
    'reshape': ('a shape order copy', 3), 'round': ('a decimals out', 3), 'shape': ('a', 1),
    'sum': ('a axis dtype out keepdims initial where', 7), 'tril': ('m k', 2), 'tril_indices': ('n k m', 3),
    'triu': ('m k', 2), 'triu_indices': ('n k m', 3), 'vstack': ('tup dtype casting', 1),
    'zeros': ('shape dtype order device like', 3), 'zeros_like': ('a dtype order subok shape device', 5),
    'ones': ('shape dtype order device like', 3),
    'linalg.inv': ('a', 1), 'linalg.norm': ('x ord axis keepdims', 4),
    'random.rand': ('', None), 'random.randn': ('', None), 'random.randint': ('low high size dtype', 4),
}
_red = ('input axis dim keepdim keepdims out', 3)
TORCH = {
    'abs': ('input out', 1), 'ceil': ('input out', 1), 'exp': ('input out', 1), 'floor': ('input out', 1), 'log': ('input out', 1),
    'sqrt': ('input out', 1), 'isfinite': ('input', 1), 'isnan': ('input', 1), 'all': _red, 'any': _red,
    'argmax': _red, 'argmin': _red, 'max': ('input axis dim keepdim keepdims out other', 3),
    'min': ('input axis dim keepdim keepdims out other', 3), 'mean': ('input axis dim keepdim keepdims dtype out', 3),
    'sum': ('input axis dim keepdim keepdims dtype', 3), 'median': ('input axis dim keepdim keepdims', 3),
    'arange': ('start end step dtype layout out device requires_grad', 3),
    'asarray': ('obj dtype device requires_grad copy', 1), 'diag': ('input diagonal out', 2),
    'empty': ('size dtype layout out device requires_grad pin_memory memory_format', None),
    'zeros': ('size dtype layout out device requires_grad', None), 'ones': ('size dtype layout out device requires_grad', None),
    'eye': ('n m dtype layout out device requires_grad', 2),
    'full': ('size fill_value dtype layout out device requires_grad', 2), 'hstack': ('tensors out', 1), 'vstack': ('tensors out', 1),
    'reshape': ('input shape', 2), 'round': ('input out decimals', 1),
    'zeros_like': ('input dtype layout device requires_grad memory_format', 1), 'cdist': ('x1 x2 p compute_mode', 3),
    'tensor': ('data dtype device requires_grad pin_memory', 1), 'from_numpy': ('ndarray', 1), 'stack': ('tensors axis dim out', 2),
    'linalg.inv': ('A out', 1), 'linalg.norm': ('A ord axis dim keepdim keepdims dtype out', 4),
    'rand': ('size dtype layout out device requires_grad generator pin_memory', None),
    'randn': ('size dtype layout out device requires_grad generator pin_memory', None),
    'randint': ('low high size dtype layout out device requires_grad generator', 3),
    'tril': ('input diagonal out', 2), 'triu': ('input diagonal out', 2), 'pdist': ('input p', 2),
    'tril_indices': ('row col offset dtype device layout', 3), 'triu_indices': ('row col offset dtype device layout', 3),
    'normal': ('mean std size dtype out generator layout device requires_grad', None), 'allclose': ('input other rtol atol equal_nan', 2),
    'is_tensor': ('obj', 1),
}
SCIPY = {
    'scipy.spatial.distance.cdist': (None, 3), 'scipy.spatial.distance.pdist': (None, 2),
    'sklearn.metrics.pairwise.euclidean_distances': ('X Y Y_norm_squared squared X_norm_squared', 2),
    'sklearn.metrics.euclidean_distances': ('X Y Y_norm_squared squared X_norm_squared', 2),
    'sklearn.metrics.pairwise_distances': (None, 3), 'sklearn.metrics.pairwise.pairwise_distances': (None, 3),
}
# positions whose value must be a shape / dtype, not a plain dimension
DTYPE_POS = {'numpy.zeros': 1, 'numpy.empty': 1, 'numpy.ones': 1}
TORCH_SHAPE_FIRST = {'torch.zeros', 'torch.empty', 'torch.ones'}

# attributes ndarrays have and tensors lack, and the reverse (methods the code could plausibly use)
ND_ONLY = {'astype', 'copy', 'tolist_', 'compress', 'fill', 'ptp', 'searchsorted', 'setflags', 'tobytes', 'tofile', 'choose', 'partition',
           'argpartition', 'put', 'newbyteorder', 'byteswap', 'strides', 'flat', 'base', 'flags', 'dump', 'dumps', 'itemset'}
TORCH_ONLY = {'clone', 'detach', 'cpu', 'to', 'dim', 'unsqueeze', 'requires_grad', 'backward', 'cuda', 'device', 'is_floating_point',
              'numpy', 'float', 'double', 'long', 'contiguous', 'expand', 'permute', 'new_zeros', 'masked_fill', 'grad', 'is_cuda',
              'item_', 'bool', 'int', 'type_as', 'index_select', 'view_as', 'requires_grad_', 'numel'}


def lookup(name):
    if name.startswith('numpy.'):
        return NUMPY.get(name[6:])
    if name.startswith('torch.'):
        return TORCH.get(name[6:])
    return SCIPY.get(name)


def check(name, a):
    """why the call does not fit the signature, or None"""
    s = lookup(name)
    if s is None:
        return None
    kws, npos = s
    if kws is not None:
        ok = set(kws.split())
        for k in sorted(a.kw):
            if k not in ok:
                return 'it takes no keyword `%s`' % k
    if npos is not None and len(a.pos) > npos:
        return 'it takes at most %d positional arguments, not %d' % (npos, len(a.pos))
    return None
