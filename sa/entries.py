"""Catalogue of the public surface of the analysed package: functions and
classes reachable without underscore names, their parameters, the option
values their documentation advertises, and abstract argument values for them."""
import ast
import re

from .values import *
from .interp import Interp, Program, AnalysisBroken, Hooks, Args

DATA_PARAMS = set('''X y X1 X2 s1 s2 ts x series dataset dataset1 dataset2 X_train X_test timeseries dataset_paa
barycenters init_barycenter weights sample_weight Y y_true y_pred arr D SX SY X_transformed gamma_X dist_matrix
dist_mat'''.split())


def doc_of(node):
    try:
        return ast.get_docstring(node) or ''
    except TypeError:
        return ''


def doc_options(doc):
    """{param: set of advertised literal values} from numpydoc `name : {...}`"""
    out = {}
    lines = doc.split('\n')
    i = 0
    while i < len(lines):
        m = re.match(r'^\s*(\w+)\s*:\s*(.*)$', lines[i])
        if m and '{' in m.group(2):
            txt = m.group(2)
            j = i
            while '}' not in txt and j + 1 < len(lines) and j < i + 6:
                j += 1
                txt += ' ' + lines[j].strip()
            mm = re.search(r'\{([^}]*)\}', txt)
            if mm:
                vals = re.findall(r'''['"]([^'"]*)['"]''', mm.group(1))
                if vals:
                    out[m.group(1)] = set(vals)
        elif m and re.search(r'\bstr\b', m.group(2)):
            pass
        i += 1
    return out


def doc_types(doc):
    """{param: 'num' | 'int' | 'bool'} for parameters documented as plain numbers"""
    out = {}
    for line in doc.split('\n'):
        m = re.match(r'^\s*(\w+)\s*:\s*(.*)$', line)
        if not m:
            continue
        t = re.sub(r'\(.*', '', m.group(2)).lower()
        if re.search(r'array|list|tuple|dict|callable|str|ndarray|tensor|\{|func|instance|object|dataset|class', t):
            continue
        if re.search(r'\bfloat\b|\bdouble\b|\bnumber\b|\breal\b', t):
            out[m.group(1)] = 'num'
        elif re.search(r'\bint(eger)?\b', t):
            out[m.group(1)] = 'int'
        elif re.search(r'\bbool(ean)?\b', t):
            out[m.group(1)] = 'bool'
    return out


class Entry(object):
    """A public callable. kind: func | method | init"""

    def __init__(self, kind, qual, mod, func, cls=None, opts=None, types=None):
        self.types = types or {}
        self.kind = kind
        self.qual = qual
        self.mod = mod
        self.func = func
        self.cls = cls
        self.opts = opts or {}

    @property
    def params(self):
        a = self.func.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if self.cls is not None and self.func.kindf not in ('static',) and ps:
            ps = ps[1:]
        return ps

    def __repr__(self):
        return 'Entry(%s)' % self.qual


class Catalog(object):
    def __init__(self, ip):
        self.ip = ip
        for m in sorted(ip.p.trees):
            ip.load_module(m)
        self.funcs = {}
        self.classes = {}
        for m in sorted(ip.p.trees):
            env = ip.menv[m]
            for n, v in sorted(env.items()):
                for o in v.o:
                    if isinstance(o, Func) and o.mod == m and o.cls is None and not n.startswith('_') and o.name == n:
                        self.funcs[o.qual] = Entry('func', o.qual, m, o, None, doc_options(doc_of(o.node)), doc_types(doc_of(o.node)))
                    elif isinstance(o, Cls) and o.mod == m:
                        self.classes[o.qual] = o
        if len(self.funcs) < 40 or len(self.classes) < 25:
            raise AnalysisBroken('public surface not found: %d functions, %d classes' % (len(self.funcs), len(self.classes)))

    def is_estimator(self, c):
        return any(isinstance(b, Ext) and b.name == 'sklearn.base.BaseEstimator' or
                   isinstance(b, Ext) and b.name.startswith(('sklearn.neighbors.', 'sklearn.neural_network.'))
                   for b in c.mro())

    def estimators(self):
        """concrete public estimators: BaseEstimator subclasses with a fit method and public name"""
        r = []
        for q, c in sorted(self.classes.items()):
            if c.name.startswith('_') or not self.is_estimator(c):
                continue
            if c.name.endswith('Mixin') or c.name in ('BaseEstimator',):
                continue
            f = self.method(c, 'fit')
            init = self.ip.class_lookup(c, '__init__')
            if f is None and not isinstance(self.ip.class_lookup(c, 'fit'), Ext):
                continue
            if any('abstractmethod' in ast.dump(d) for n, v in c.attrs.items() for o in v.o if isinstance(o, Func)
                   for d in getattr(o.node, 'decorator_list', [])):
                continue
            r.append(c)
        return r

    def method(self, c, name):
        m = self.ip.class_lookup(c, name)
        if isinstance(m, V):
            for o in m.o:
                if isinstance(o, Func):
                    return o
        return None

    def methods(self, c, public=True):
        """name -> Func over the MRO (program classes)"""
        r = {}
        for b in reversed(c.mro()):
            if isinstance(b, Cls):
                for n, v in b.attrs.items():
                    for o in v.o:
                        if isinstance(o, Func):
                            if not public or not n.startswith('_'):
                                r[n] = o
                        elif n in r:
                            del r[n]
        return r

    def ext_methods(self, c):
        """public methods supplied by modelled external bases"""
        r = set()
        for b in c.mro():
            if isinstance(b, Ext):
                r |= {n for n in self.ip.ext.BASE_METHODS.get(b.name, ()) if not n.startswith('_')}
        own = set(self.methods(c))
        return r - own

    def init_func(self, c):
        m = self.ip.class_lookup(c, '__init__')
        if isinstance(m, V):
            for o in m.o:
                if isinstance(o, Func):
                    return o
        return None

    def hyper(self, c):
        return self.ip.ext.init_params(self.ip, c)

    def class_types(self, c):
        r = {}
        for b in reversed(c.mro()):
            if isinstance(b, Cls):
                r.update(doc_types(doc_of(b.node)))
                if '__init__' in b.attrs:
                    for o in b.attrs['__init__'].o:
                        if isinstance(o, Func):
                            r.update(doc_types(doc_of(o.node)))
        return r

    def class_opts(self, c):
        r = {}
        for b in reversed(c.mro()):
            if isinstance(b, Cls):
                r.update(doc_options(doc_of(b.node)))
                if '__init__' in b.attrs:
                    for o in b.attrs['__init__'].o:
                        if isinstance(o, Func):
                            r.update(doc_options(doc_of(o.node)))
        return r


def param_value(name, default, opts, own=E, lab=E, idt=None, mode='numpy', extra_top=True, typ=None):
    """abstract value of a user-supplied argument"""
    if name == 'be':
        if mode == 'numpy':
            return V(c=frozenset([NONE]), lab=lab)
        return V(c=frozenset([NONE]), lab=lab)
    if opts:
        v = V(c=frozenset(('s', o) for o in opts))
        if default is not None and not default.top:
            v = join(v, V(c=default.c))
        v = v.with_(own=own, lab=lab, idt=idt)
        return v
    if is_optdict(name):
        return V(c=frozenset([NONE]), o=frozenset([Ref(('user', name))]), lab=lab, idt=idt)
    if typ in ('num', 'int') and (default is None or default.single_const()[0] and not isinstance(default.single_const()[1], str)):
        c = frozenset([NONE]) if default is not None and default.single_const()[1] is None else E
        return V(c=c, top=True, kind=typ, lab=lab, idt=idt)
    if default is None:
        return V(top=True, kind='any', own=own, lab=lab, idt=idt)
    ok, k = default.single_const()
    if ok and isinstance(k, bool):
        return V(c=frozenset([('b', True), ('b', False)]), lab=lab, idt=idt)
    if ok and isinstance(k, int):
        return V(top=True, kind='int', lab=lab, idt=idt)
    if ok and isinstance(k, float):
        return V(top=True, kind='num', lab=lab, idt=idt)
    if ok and isinstance(k, str):
        v = V(c=frozenset([('s', k)]), own=own, lab=lab, idt=idt)
        return v.with_(top=True, kind='any') if extra_top else v
    if ok and k is None:
        return V(c=frozenset([NONE]), top=True, kind='any', own=own, lab=lab, idt=idt)
    return V(c=default.c, o=default.o, top=True, kind='any', own=own, lab=lab, idt=idt)


OPTDICTS = ('metric_params', 'kernel_params', 'baseline_kwargs', 'kwds', 'kwargs_sdtw', 'kwargs_dtw')


def is_optdict(name):
    return name in OPTDICTS


def user_heap(heap, own_of):
    """heap with the dict objects a user may pass"""
    heap = dict(heap)
    for name in OPTDICTS:
        heap[('user', name)] = HObj('dict', None, {}, V(c=frozenset([NONE]), top=True, kind='num', lab=frozenset([('arg', name)])),
                                    own_of(name), E)
    return heap


class Life(object):
    """life cycle of one estimator class: construct, fit, query."""

    NOT_QUERY = {'fit', 'fit_transform', 'fit_predict', 'get_params', 'set_params', 'partial_fit', 'from_json',
                 'from_hdf5', 'from_pickle', 'to_json', 'to_hdf5', 'to_pickle', 'set_output', 'get_metadata_routing'}

    def __init__(self, ip, cat, cls, mode='numpy'):
        self.ip = ip
        self.cat = cat
        self.cls = cls
        self.opts = cat.class_opts(cls)
        self.types = cat.class_types(cls)
        self.hyper = cat.hyper(cls)
        self.mode = mode

    def default(self, p):
        f = self.cat.init_func(self.cls)
        if f is not None:
            return self.ip.default_of(f, p)
        return NONEV

    def hyper_value(self, p, own=E, lab=E, idt=None):
        return param_value(p, self.default(p), self.opts.get(p), own, lab, idt, self.mode, typ=self.types.get(p))

    def construct(self, heap, values=None, own=None, lab=None, idt=None):
        kw = {}
        for p in self.hyper:
            if values and p in values:
                kw[p] = values[p]
            else:
                kw[p] = self.hyper_value(p, own(p) if own else E, lab(p) if lab else E, idt(p) if idt else None)
        r, st, ex = self.ip.run_function(obj(self.cls), [], kw, heap, node=self.cls.node)
        if r is None:
            return None, None, ex
        return r, st.heap, ex

    def has(self, name):
        return self.cat.method(self.cls, name) is not None or name in self.cat.ext_methods(self.cls)

    def queries(self):
        ms = set(self.cat.methods(self.cls)) | self.cat.ext_methods(self.cls)
        return sorted(m for m in ms if not m.startswith('_') and m not in self.NOT_QUERY and not self.is_prop(m)
                      and not self.is_static(m))

    def is_static(self, m):
        f = self.cat.method(self.cls, m)
        return f is not None and f.kindf in ('static', 'class')

    def is_prop(self, m):
        f = self.cat.method(self.cls, m)
        return f is not None and f.kindf in ('property', 'setter')

    def props(self):
        return sorted(m for m in self.cat.methods(self.cls) if self.is_prop(m))

    def method_args(self, name, own=None, lab=None):
        """abstract arguments for method `name`"""
        f = self.cat.method(self.cls, name)
        kw = {}
        if f is None:
            for p in ('X', 'y') if name in ('fit', 'score') else ('X',):
                kw[p] = V(top=True, kind='any', own=own(p) if own else E, lab=lab(p) if lab else E)
            return kw
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][(0 if f.kindf == 'static' else 1):]
        types = doc_types(doc_of(f.node))
        opts = doc_options(doc_of(f.node))
        for p in ps:
            kw[p] = param_value(p, self.ip.default_of(f, p), opts.get(p), own(p) if own else E, lab(p) if lab else E,
                                None, self.mode, typ=types.get(p))
        return kw

    def run(self, name, ref, heap, own=None, lab=None, kw=None):
        """call method `name` of the instance; (ret, state or None, raises)"""
        from .interp import Args, Frame, State, Dead
        ip = self.ip
        st = State({}, heap)
        fr = Frame(None, '<entry>', '<entry>')
        f = self.cat.method(self.cls, name)
        node = f.node if f is not None else self.cls.node
        if kw is None:
            kw = self.method_args(name, own, lab)
        try:
            m = ip.getattr_(ref, name, st, fr, node)
            if self.is_prop(name):
                return m, st, fr.accs[0].d
            r = ip.call_value(m, Args([], kw), node, st, fr)
        except Dead:
            return None, None, fr.accs[0].d
        return r, st, fr.accs[0].d
