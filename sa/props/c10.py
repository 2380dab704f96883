"""C10: every option a caller passes reaches the computation that takes it.

Each public function is executed abstractly with every optional parameter
labelled with its own name, each estimator with every hyper-parameter labelled
(and, for metric_params / kernel_params, every key of the options dict the
metric takes labelled with the key), in every discrete configuration; fit and
all queries are run. Obligations:
  forward   a function of the package called on behalf of an entry and taking
            an option the entry accepts (a formal of the same name or a known
            alias) is given a value derived from that option: not its default
            (dropped), not a constant, not another option (swapped), and, for the
            numeric options, not the result of arithmetic on it (altered);
  used      every accepted option reaches a computation at all;
  type      an option is never compared with constants of a type its values at
            this point cannot have (an untranslated or twice translated code),
            nor looked up in a table that has no key of its type."""
from ..common import *
from ..ext import strip

RULE = ('an internal callee that takes an option the entry point accepts is given a value derived from that option; '
        'every accepted option reaches a computation; option codes are translated exactly once')

# data arguments and things other properties decide
NOT_OPT = {'be', 'y', 'X', 'Y', 's1', 's2', 'X2', 'dataset', 'dataset1', 'dataset2', 'ts', 'labels', 'weights_', 'mask', 'random_state',
           'sz1', 'sz2', 'trim', 'n_neighbors', 'fname', 'path', 'sep', 'fmt'}
ALIAS = {'radius': 'sakoe_chiba_radius', 'max_slope': 'itakura_max_slope'}
# a callee's option that several caller options legitimately provide
PROVIDES = {
    'max_iter': {'max_iter_barycenter', 'max_iter'},
    'gamma': {'gamma', 'gamma_sdtw', 'sdtw_gamma'},
    'init_barycenter': {'init_barycenter', 'init'},
}
# names that mean something else in internal functions than in the entry points
OTHER = {
    'scale': 'the scale of one coordinate of the SAX statistics, not the option `scale`',
}


def unrelated(entry_is_estimator, caller, fq, n):
    """the formal n of the callee fq is another quantity than the entry's option n"""
    f = fq.rsplit('.', 1)[-1]
    if f == 'compute_var':
        return True         # fits an AR model of any order: used for the AR and the MA order alike
    if entry_is_estimator and fq.startswith('tslearn.barycenters.') and n in ('tol', 'init', 'init_barycenter', 'n_init'):
        return True         # of the barycenter problem, not of the estimator's iteration
    if n == 'verbose' and 'cdist' not in f:
        return True         # reporting of the outermost loop only
    if caller.rsplit('.', 1)[-1] == 'ts_size' and n == 'dtype':
        return True         # only counts timestamps
    return False


# options no internal call may receive rescaled or shifted
EXACT = {'sakoe_chiba_radius', 'itakura_max_slope', 'gamma', 'sigma', 'eps', 'tol', 'max_iter', 'n_jobs', 'n_components', 'radius', 'max_slope',
         'n_init', 'n_segments', 'alphabet_size_avg', 'alphabet_size_slope', 'initial_step_size', 'final_step_size', 'global_constraint',
         'max_iter_barycenter', 'n_clusters', 'degree', 'C', 'coef0', 'epsilon'}
DTW_KEYS = ('global_constraint', 'sakoe_chiba_radius', 'itakura_max_slope')
METRIC_KEYS = {
    'dtw': DTW_KEYS, 'frechet': DTW_KEYS, 'ctw': DTW_KEYS + ('n_components',),
    'softdtw': ('gamma',) + DTW_KEYS, 'gak': ('sigma',), 'sax': ('n_segments', 'alphabet_size_avg'),
}
GC = frozenset([NONE, ('s', 'itakura'), ('s', 'sakoe_chiba')])


def optlab(p):
    return frozenset([('opt', p)])


# options for which 0 is a value of its own, not a way to say "not given"
ZERO = {'sakoe_chiba_radius', 'radius', 'gamma', 'tol', 'max_iter', 'max_iter_barycenter', 'itakura_max_slope', 'sigma', 'eps'}


def key_value(k, zero=False):
    if zero and k in ZERO:
        return const(0).with_(lab=optlab(k))
    if k == 'gamma_sdtw':
        return V(top=True, kind='num', lab=optlab('gamma'))
    if k == 'global_constraint':
        return V(c=GC, lab=optlab(k))
    return V(c=frozenset([NONE]) if k in DTW_KEYS else E, top=True, kind='num', lab=optlab(k))


class H(Hooks):
    names = frozenset()

    def labs(self, ip, v, st):
        return frozenset(l[1] for l in ip.deep_labels(v, st, 4) if l[0] == 'opt')

    def call(self, ip, f, env, explicit, node, fr, st):
        for q, v in env.items():
            if not isinstance(v, V):
                continue
            n = ALIAS.get(q, q)
            labs = self.labs(ip, v, st)
            if n in self.names:
                if ('optx', n) in v.lab:
                    labs = labs | {'optx'}
                ip.emit('pass', node, fr, '', key=(f.qual, q, n, q in explicit, labs, f.name == '__init__' and f.cls is not None))

    def arith(self, ip, op, args, v, node, fr, st):
        add = frozenset(('optx', l[1]) for a in args for l in a.lab if l[0] == 'opt' and l[1] in EXACT)
        return v.addlab(add) if add else v

    def use(self, ip, node, fr, labs):
        for l in labs:
            ip.emit('use', node, fr, '', key=l)

    def ext_call(self, ip, name, a, node, fr, st):
        vs = list(a.pos) + list(a.kw.values())
        labs = frozenset()
        for v in vs:
            if isinstance(v, V):
                labs |= self.labs(ip, v, st)
        if not name.startswith(('builtins.isinstance', 'builtins.print', 'builtins.type', 'warnings.')):
            self.use(ip, node, fr, labs)
        if name.startswith(('sklearn.', 'scipy.', 'keras.', 'torch.nn.')) or name.startswith('joblib.') and not name.endswith('Parallel'):
            for q, v in a.kw.items():
                if q in self.names and isinstance(v, V) and not (v.c and all(c[0] == 's' for c in v.c) and not v.lab):
                    ip.emit('pass', node, fr, '', key=(name, q, q, True, self.labs(ip, v, st), False))
        elif name.startswith('joblib.'):
            v = a.kw.get('n_jobs', a.pos[0] if a.pos else None)
            ip.emit('pass', node, fr, '', key=('joblib.Parallel', 'n_jobs', 'n_jobs', v is not None,
                                               self.labs(ip, v, st) if v is not None else frozenset(), False))

    def ext_method(self, ip, recv, name, a, node, fr, st):
        labs = self.labs(ip, recv, st)
        for v in list(a.pos) + list(a.kw.values()):
            if isinstance(v, V):
                labs |= self.labs(ip, v, st)
        self.use(ip, node, fr, labs)

    def test(self, ip, v, node, fr, st):
        self.use(ip, node, fr, self.labs(ip, v, st))

    def compare(self, ip, op, l, r, node, fr, st):
        la, lb = self.labs(ip, l, st), self.labs(ip, r, st)
        self.use(ip, node, fr, la | lb)
        if op not in (ast.Eq, ast.NotEq):
            return
        for x, y, labs in ((l, r, la), (r, l, lb)):
            if not labs or x.top or x.o or y.top or y.o:
                continue
            tx = {c[0] for c in x.c} - {'n', 'absent'}
            ty = {c[0] for c in y.c} - {'n', 'absent'}
            if 's' in tx and ty and ty <= {'i', 'f'}:
                ip.emit('type', node, fr, 'option %s still is a name (%s) where it is compared with the code %s' % (
                    '/'.join(sorted(labs)), ', '.join(sorted(str(c[1]) for c in x.c if c[0] == 's')), sorted(c[1] for c in y.c)[0]),
                    key='/'.join(sorted(labs)))
            elif 'i' in tx and ty == {'s'}:
                ip.emit('type', node, fr, 'option %s already is a code where it is compared with the name %r' % (
                    '/'.join(sorted(labs)), sorted(c[1] for c in y.c)[0]), key='/'.join(sorted(labs)))

    def attr_store(self, ip, ref, h, name, v, node, fr):
        if isinstance(h.cls, Cls) and self.helper(h.cls):
            self.use(ip, node, fr, {l[1] for l in v.lab if l[0] == 'opt'})

    def helper(self, c):
        return not any(isinstance(b, Ext) and b.name == 'sklearn.base.BaseEstimator' for b in c.mro())

    def key(self, ip, h, i, node, fr, st):
        labs = self.labs(ip, i, st)
        if not labs:
            return
        self.use(ip, node, fr, labs)
        if h.elem is not None or i.top or not h.fields:
            return
        tk = {'s' if isinstance(k, str) else 'i' if isinstance(k, int) else 'n' if k is None else 'o' for k in h.fields}
        ti = {c[0] for c in i.c} - {'absent', 'n'}
        if 'i' in ti and tk <= {'s', 'n'}:
            ip.emit('type', node, fr, 'option %s already is a code where it is looked up by name' % '/'.join(sorted(labs)),
                    key='/'.join(sorted(labs)))


def run(rep):
    hk = H()
    ip, cat = make(hk)
    ip.unroll_all = True
    names = set(DTW_KEYS) | {'gamma', 'sigma', 'n_segments', 'alphabet_size_avg', 'n_components'}
    fopts = {}
    for q, en in cat.funcs.items():
        fopts[q] = [p for p in en.params if ip.default_of(en.func, p) is not None and p not in NOT_OPT]
        names |= set(fopts[q])
    for c in cat.estimators():
        names |= set(Life(ip, cat, c).hyper)
    hk.names = frozenset(names - NOT_OPT - set(OTHER) - set(OPTD))
    seen_use = {}

    def heap_for(keys, zero=False):
        h = user_heap(ip.gheap, lambda p: E)
        for n in OPTD:
            r = ('user', n)
            h[r] = HObj('dict', None, {k: key_value(k, zero) for k in keys}, None, E, E)
        return h

    def collect(what, accepted, ecls=None, metric=None, zero=False):
        """check the obligations of one run"""
        fam = {c.qual for c in ecls.mro() if isinstance(c, Cls)} if ecls is not None else set()
        evs = list(ip.all_events())
        good = {}
        for e in evs:
            if e.rule == 'pass':
                fq, q, n, expl, labs, isinit = e.key
                k = (fq, n)
                good[k] = good.get(k, True) and 'optx' not in labs and bool(labs & (PROVIDES.get(n, set()) | {n}))
        for e in evs:
            if e.rule == 'use':
                seen_use.setdefault(what.split(' ')[0] if ecls is None else ecls.qual, set()).add(e.key)
            elif e.rule == 'type' and not zero:
                rep.violation('type:%s:%s' % (e.func, e.key), '%s: %s' % (what, e.msg), where(ip, e), event_path(ip, e))
            elif e.rule == 'pass':
                fq, q, n, expl, labs, isinit = e.key
                if n not in accepted:
                    continue
                if isinit and fq.rsplit('.', 1)[0] not in fam:
                    continue        # another estimator: its options are its own
                rep.count('options handed to internal computations (obligations)')
                rep.sample('pairs', (n, fq))
                ok = PROVIDES.get(n, set()) | {n}
                if ecls is not None and fq.startswith('tslearn.barycenters.') and n == 'max_iter' and 'max_iter_barycenter' in accepted:
                    ok = {'max_iter_barycenter'}
                if unrelated(ecls is not None, e.func or '', fq, n):
                    continue
                if labs & ok and 'optx' in labs and good.get((e.func, n), True):
                    rep.violation('altered:%s:%s:%s' % (e.func, fq, q), '%s: option `%s` is altered by arithmetic before it is handed to %s' % (what, n, fq),
                                  where(ip, e), event_path(ip, e))
                if labs & ok:
                    continue
                if not good.get((e.func, n), True):
                    continue        # the caller itself was not given the option: reported there
                if n in DTW_KEYS and metric == 'softdtw' and '._dtw.' in fq:
                    continue        # DTW inertia of a soft-DTW model: not the metric the options are for
                if not expl:
                    why = 'is dropped: %s falls back to its default' % fq
                elif labs:
                    why = 'is replaced by option %s in the call of %s' % ('/'.join(sorted(labs)), fq)
                else:
                    why = 'is replaced by a fixed value in the call of %s' % fq
                rep.violation('forward:%s:%s:%s' % (e.func, fq, q), '%s: option `%s` %s' % (what, n, why), where(ip, e), event_path(ip, e))
        ip.clear_events()

    for q, en in sorted(cat.funcs.items()):
        kws = [()]
        if 'metric_params' in en.params or en.func.node.args.kwarg is not None and en.func.node.args.kwarg.arg == 'metric_params':
            kws = [('dtw', DTW_KEYS), ('softdtw', ('gamma',))] if 'metric' in en.params else [('', DTW_KEYS)]
        for mk, zero in [(mk, False) for mk in kws] + [(mk, True) for mk in kws if ZERO & (set(fopts[q]) | set(mk[1] if mk else ()))]:
            keys = mk[1] if mk else ()
            h0 = heap_for(keys, zero)
            kw = {}
            for p in en.params:
                lab = optlab(p) if p in fopts[q] and p not in OPTD else E
                v = param_value(p, ip.default_of(en.func, p), en.opts.get(p), lab=lab, typ=en.types.get(p))
                if p == 'metric' and mk:
                    v = const(mk[0]).with_(lab=lab)
                if keys and p in OPTD:
                    v = v.with_(c=E)
                if zero and p in ZERO:
                    v = const(0).with_(lab=lab)
                kw[p] = v
            if en.func.node.args.kwarg is not None and en.func.node.args.kwarg.arg == 'metric_params':
                for k in keys:
                    kw[k] = key_value(k, zero)
            r, st, ex = ip.run_function(obj(en.func), [], kw, h0, node=en.func.node)
            if r is not None and not zero:
                for l in ip.deep_labels(r, st, 4):
                    if l[0] == 'opt':
                        seen_use.setdefault(q, set()).add(l[1])
            rep.count('entry points executed')
            collect(q + (' with options 0' if zero else ''), set(fopts[q]) | set(keys), zero=zero)
        for p in fopts[q]:
            if p in hk.names:
                rep.count('options that must reach a computation')
                if p not in seen_use.get(q, ()):
                    rep.violation('used:%s:%s' % (q, p), '%s: option `%s` reaches no computation' % (q, p),
                                  '%s:%s' % (ip.p.paths.get(en.func.mod, en.func.mod), en.func.node.lineno))
    for c in cat.estimators():
        L = Life(ip, cat, c)
        dicts = [p for p in L.hyper if p in OPTD]
        accepted0 = {p for p in L.hyper if p not in NOT_OPT and p not in OPTD}
        cfgs = configs(L)
        if c.name.startswith('KNeighbors'):
            # documented alias of gamma
            cfgs = cfgs + [dict(cfg, _legacy=True) for cfg in cfgs if cfg.get('metric') == const('softdtw')]
        for cfg, zero in [(cfg, z) for z in (False, True) for cfg in cfgs]:
            sel = cfg.get('metric', cfg.get('kernel'))
            m = sel.single_const()[1] if sel is not None and sel.single_const()[0] else None
            if cfg.get('_legacy'):
                keys = ('gamma_sdtw',)
                cfg = {p: v for p, v in cfg.items() if p != '_legacy'}
            else:
                keys = METRIC_KEYS.get(m, ()) if dicts else ()
            if zero and not ZERO & (set(keys) | set(L.hyper)):
                continue
            h0 = heap_for(keys, zero)
            vals = with_values(cfg, L, lab=lambda p: optlab(p) if p not in OPTD else E)
            for d in dicts:
                if keys:
                    vals[d] = vals[d].with_(c=E)
            for p in L.hyper:
                if zero and p in ZERO:
                    vals[p] = const(0).with_(lab=optlab(p))
            if dicts and 'n_jobs' in vals:
                vals['n_jobs'] = vals['n_jobs'].with_(c=E)
            ip.clear_events()
            r, h, ex = L.construct(h0, vals)
            if r is None:
                continue
            ip.clear_events()
            acc = accepted0 | {'gamma' if k == 'gamma_sdtw' else k for k in keys}
            rr, st, ex = L.run('fit', r, h)
            rep.count('entry points executed')
            collect('%s.fit (%s)' % (c.qual, cfg_str(cfg)), acc, c, m, zero)
            if st is None:
                continue
            for mth in L.queries():
                r2, s2, ex = L.run(mth, r, st.heap)
                if r2 is not None and s2 is not None:
                    seen_use.setdefault(c.qual, set()).update(l[1] for l in ip.deep_labels(r2, s2, 4) if l[0] == 'opt')
                rep.count('entry points executed')
                collect('%s.%s (%s)' % (c.qual, mth, cfg_str(cfg)), acc, c, m, zero)
        # hyper-parameters an external base class reads itself
        if any(isinstance(b, Ext) and b.name.startswith(('sklearn.neural_network.', 'sklearn.neighbors.')) for b in c.mro()):
            accepted0 = set()
        for p in sorted(accepted0 & hk.names):
            rep.count('options that must reach a computation')
            if p not in seen_use.get(c.qual, ()):
                rep.violation('used:%s:%s' % (c.qual, p), '%s: hyper-parameter `%s` reaches no computation' % (c.qual, p),
                              '%s:%s' % (ip.p.paths.get(c.mod, c.mod), c.node.lineno))
        ip.memo.clear()
    rep.rule = RULE
    rep.floor('options handed to internal computations (obligations)', 300)
    rep.floor('entry points executed', 250)
    rep.floor('options that must reach a computation', 150)


OPTD = ('metric_params', 'kernel_params', 'baseline_kwargs', 'kwds', 'kwargs_sdtw', 'kwargs_dtw')
