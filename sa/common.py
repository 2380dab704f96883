"""Shared driver code of the property checks: programs, configurations,
reports, known findings."""
import ast
import itertools
import json
import os
import time

from .values import *
from .interp import (Program, Interp, Hooks, AnalysisBroken, State, Frame, Dead, Args)
from .entries import (Catalog, Life, param_value, user_heap, doc_options, doc_types, doc_of, is_optdict)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')


class Report(object):
    def __init__(self, prop, tier='quick'):
        self.prop = prop
        self.tier = tier
        self.viol = {}
        self.counts = {}
        self.samples = {}
        self.notes = []
        self.t0 = time.time()
        self.rule = ''
        self.floors = {}

    def violation(self, key, msg, where='', path=()):
        if key not in self.viol:
            self.viol[key] = {'key': key, 'msg': msg, 'where': where, 'path': [list(x) for x in path]}

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, what, x):
        s = self.samples.setdefault(what, [])
        if len(s) < 400 and x not in s:
            s.append(x)

    def floor(self, what, n):
        """fewer than n instances means the analysis no longer sees its subject"""
        self.floors[what] = n


def known_findings():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    r = []
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('{'):
                r.append(json.loads(line))
    return r


def where(ip, e):
    p = ip.p.paths.get(e.mod, e.mod)
    return '%s:%s in %s' % (p, e.line, e.func)


def event_path(ip, e):
    r = []
    for mod, line, func in e.chain:
        r.append((ip.p.paths.get(mod, mod), line, func))
    return r


# discrete hyper-parameter / option values to enumerate when the documentation
# does not list them as a {...} set
SPLIT_VALUES = {
    ('KNeighborsTimeSeriesClassifier', 'metric'): ['dtw', 'softdtw', 'ctw', 'frechet', 'sax', 'euclidean', 'sqeuclidean', 'cityblock'],
    ('KNeighborsTimeSeriesRegressor', 'metric'): ['dtw', 'softdtw', 'ctw', 'frechet', 'sax', 'euclidean', 'sqeuclidean', 'cityblock'],
    ('KNeighborsTimeSeries', 'metric'): ['dtw', 'softdtw', 'ctw', 'frechet', 'sax', 'euclidean', 'sqeuclidean', 'cityblock'],
    ('KernelKMeans', 'kernel'): ['gak', 'rbf'],
    ('TimeSeriesSVC', 'kernel'): ['gak', 'rbf', 'precomputed'],
    ('TimeSeriesSVR', 'kernel'): ['gak', 'rbf', 'precomputed'],
    ('MatrixProfile', 'implementation'): ['numpy', 'stump', 'gpu_stump'],
}
# hyper-parameters whose None / not None distinction selects what is computed
SPLIT_NONE = {('NonMyopicEarlyClassifier', 'base_classifier'), ('LearningShapelets', 'max_size')}
NO_SPLIT = {'verbose', 'shrinking', 'probability'}
MAX_CONFIGS = 40


def configs(L, limit=MAX_CONFIGS):
    """abstract hyper-parameter configurations of an estimator: the product of
    the discrete values, everything else unknown"""
    axes = []
    cn = L.cls.name
    for p in L.hyper:
        if p in NO_SPLIT:
            continue
        d = L.default(p)
        ok, k = d.single_const() if d is not None else (False, None)
        vals = SPLIT_VALUES.get((cn, p))
        if vals is None and L.opts.get(p):
            vals = sorted(L.opts[p])
        if vals is not None:
            extra = [const(v) for v in vals]
            if d is not None and ok and k is None:
                extra.append(NONEV)
            axes.append((p, extra))
        elif ok and isinstance(k, bool):
            axes.append((p, [const(True), const(False)]))
        elif (cn, p) in SPLIT_NONE:
            axes.append((p, [NONEV, TOP]))
    if not axes:
        return [{}]
    n = 1
    for _, v in axes:
        n *= len(v)
    out = []
    if n <= limit:
        for combo in itertools.product(*[v for _, v in axes]):
            out.append({p: v for (p, _), v in zip(axes, combo)})
    else:
        base = {p: v[0] for p, v in axes}
        out.append(base)
        for p, vs in axes:
            for v in vs[1:]:
                d = dict(base)
                d[p] = v
                out.append(d)
    return out


def cfg_str(cfg):
    r = []
    for p, v in sorted(cfg.items()):
        ok, k = v.single_const()
        r.append('%s=%r' % (p, k) if ok else '%s=<any>' % p)
    return ', '.join(r) or 'default'


def with_values(cfg, L, own=None, lab=None, idt=None):
    """hyper-parameter values of configuration cfg carrying the given marks"""
    r = {}
    for p in L.hyper:
        v = cfg.get(p)
        if v is None:
            v = L.hyper_value(p)
        v = v.with_(own=(own(p) if own and (v.top or v.o) and v.kind not in ('num', 'int', 'bool') else v.own),
                    lab=lab(p) if lab else v.lab, idt=idt(p) if idt else v.idt)
        r[p] = v
    return r


def main_ref(v):
    for o in v.o:
        if isinstance(o, Ref):
            return o
    return None


INTERPS = []


from .interp import *


def make(hooks=None, mode='numpy', absent=(), for_once=False):
    ip = Interp(Program(REPO, absent=absent), hooks or Hooks(), mode=mode, for_once=for_once)
    INTERPS.append(ip)
    cat = Catalog(ip)
    return ip, cat


def retag(heap, ref, mark, keep=(), deep=True):
    """heap where every non hyper-parameter attribute of `ref` carries
    own/idt mark(a); objects it refers to are marked as well"""
    h = heap.get(ref.id)
    heap = dict(heap)
    f = dict(h.fields)

    def deep_mark(v, tok, seen):
        for o in v.o:
            stack = [o]
            while stack:
                x = stack.pop()
                if isinstance(x, Ref):
                    if x.id in seen or x == ref:
                        continue
                    seen.add(x.id)
                    g = heap.get(x.id)
                    if g is None:
                        continue
                    nf = {k: (deep_mark(w, tok, seen) if isinstance(w, V) else w) for k, w in g.fields.items()}
                    ne = deep_mark(g.elem, tok, seen) if g.elem is not None else None
                    heap[x.id] = g.with_(fields=nf, elem=ne, own=g.own | frozenset([tok]))
                elif isinstance(x, T) and x.tag == 'tuple':
                    for y in x.a[0]:
                        deep_mark(y, tok, seen)
        if v.top and v.kind not in ('num', 'int', 'bool', 'str', 'shape', 'dtype') and not v.kind.startswith('str'):
            return v.with_(own=v.own | frozenset([tok]))
        return v

    for a, v in sorted(h.fields.items(), key=lambda x: str(x[0])):
        if a in keep:
            continue
        tok = mark(a)
        f[a] = (deep_mark(v, tok, set()) if deep else v).with_(idt=tok)
    heap[ref.id] = heap[ref.id].with_(fields=f)
    return heap


def fit_exits(L, ref, heap):
    """heap after a successful fit or None"""
    rr, st, ex = L.run('fit', ref, heap)
    return (st.heap if st is not None else None), ex


SAVE_METHODS = ('to_json', 'to_hdf5', 'to_pickle')
