"""C06: a fixed random_state fixes the result.

Every public function and every estimator method is executed abstractly with a
`random_state` argument that is an arbitrary non-None value carrying the label
`rs`.  Rules:
  - a draw from a process-global generator (numpy.random, random, torch), or
    from a generator that may be the global or an unseeded one, is a violation,
    unless the global generators have been seeded from `rs` on every path that
    leads there (keras.utils.set_random_seed);
  - a generator built from a value that does not carry `rs` is a violation in
    an entry that takes random_state;
  - an external routine that randomises must be handed a random_state that
    carries `rs`;
  - no generator may be handed to a parallel task;
  - no value that depends on the clock, on hash or identity order, on the
    process environment, or on the completion order of parallel tasks may reach
    a returned value or a learned attribute, or decide a branch (clock)."""
from ..common import *
from ..ext import strip

RULE = ('draws come only from generators derived from random_state; no returned value or attribute is computed from the '
        'global generators, the clock, hash/identity order or the completion order of tasks')

RS = ('rs',)
SEED = Ref(('c06', 'seeded'))
BADRNG = {('rng', 'global'): 'the process-global generator', ('rng', 'fresh'): 'a generator seeded by the operating system'}
BAD = {('unordered',): 'the completion order of parallel tasks', ('setorder',): 'the iteration order of a set',
       ('clock',): 'the clock', ('ident',): 'object identity or hash', ('entropy',): 'operating system entropy',
       ('listdir',): 'the order in which the file system lists a directory'}
BAD.update(BADRNG)

NP_DRAWS = set('''rand randn randint random random_sample ranf sample choice shuffle permutation normal uniform
standard_normal beta binomial poisson exponential gamma multivariate_normal bytes'''.split())
TORCH_DRAWS = set('''rand randn randint randperm normal rand_like randn_like bernoulli multinomial poisson'''.split())
PY_DRAWS = set('''random randint choice choices shuffle sample uniform gauss randrange normalvariate'''.split())
SK_RANDOM = set('''KMeans MiniBatchKMeans BisectingKMeans SpectralClustering MLPClassifier MLPRegressor SVC NuSVC LinearSVC
LinearSVR RandomForestClassifier RandomForestRegressor PCA TruncatedSVD train_test_split shuffle resample StratifiedKFold
KFold ShuffleSplit StratifiedShuffleSplit LogisticRegression silhouette_score check_random_state make_blobs
randomized_svd kmeans_plusplus kmeans2 RandomizedSearchCV Perceptron SGDClassifier SGDRegressor'''.split())
CLOCKS = ('time.', 'datetime.')
STRUCTURED = {'numpy.sort', 'numpy.unique', 'numpy.lexsort', 'numpy.union1d', 'numpy.intersect1d', 'numpy.setdiff1d'}


class H(Hooks):
    takes = False          # the entry takes random_state

    def seeded(self, ip, st):
        h = ip.hget(st, SEED)
        v = h.fields['v'] if h is not None else const(False)
        return v.c == frozenset([('b', True)])

    def draw(self, ip, what, node, fr, st):
        if not self.seeded(ip, st):
            ip.emit('draw', node, fr, 'draws from the process-global generator through %s' % what, key=what)

    def ext_call(self, ip, name, a, node, fr, st):
        s = name.rsplit('.', 1)[-1]
        vals = list(a.pos) + list(a.kw.values())
        if name.startswith('numpy.random.') and s in NP_DRAWS or name.startswith('torch.') and s in TORCH_DRAWS and \
                'generator' not in a.kw or name.startswith('random.') and s in PY_DRAWS:
            self.draw(ip, name, node, fr, st)
        elif s == 'set_random_seed' or name in ('numpy.random.seed', 'torch.manual_seed', 'random.seed'):
            v = vals[0] if vals else NONEV
            if not v.bottom:
                ok = RS in v.lab and NONE not in v.c
                if self.takes and not ok:
                    ip.emit('seed', node, fr, '%s seeds the global generators with a value that does not come from '
                            'random_state' % name, key=name)
                # numpy.random.seed alone does not govern the other generators
                ip.hset(st, SEED, HObj('flag', None, {'v': const(bool(ok))}))
        elif s == 'check_random_state' or name in ('numpy.random.RandomState', 'numpy.random.default_rng', 'random.Random'):
            v = vals[0] if vals else NONEV
            if self.seeded(ip, st) and not v.top and not v.o and v.c == frozenset([NONE]):
                pass
            elif self.takes and RS not in v.lab:
                ip.emit('source', node, fr, '%s builds a generator from a value that does not come from random_state'
                        % s, key=s)
            elif NONE in v.c and not self.seeded(ip, st):
                ip.emit('source', node, fr, '%s may be given None although random_state was set' % s, key=s)
        elif s in SK_RANDOM and not name.startswith('builtins.'):
            self.routine(ip, s, a, node, fr, st)
        elif name.startswith('keras.') and (s in ('Dense', 'Conv1D', 'Sequential', 'GlorotUniform', 'RandomUniform') or
                                            '.initializers.' in name and s not in ('Zeros', 'Ones', 'Constant')):
            if self.takes:
                self.draw(ip, name, node, fr, st)

    def routine(self, ip, s, a, node, fr, st):
        v = a.kw.get('random_state')
        if a.dstar is not None:
            return
        if s == 'silhouette_score' and 'sample_size' not in a.kw:
            return
        if s in ('SVC', 'NuSVC', 'LogisticRegression', 'PCA', 'KFold', 'StratifiedKFold') and not self.takes:
            return
        if v is None:
            ip.emit('routine', node, fr, '%s randomises and is not handed random_state' % s, key=s)
        elif self.takes and RS not in v.lab or not self.takes and (v.top or NONE in v.c):
            ip.emit('routine', node, fr, '%s is handed a random_state that does not come from the one given by the user' % s,
                    key=s)
        elif self.takes and NONE in v.c:
            ip.emit('routine', node, fr, '%s may be handed None although random_state was set' % s, key=s)

    def ext_method(self, ip, recv, name, a, node, fr, st):
        if recv.kind == 'rng' and (recv.top):
            for l, what in BADRNG.items():
                if l in recv.lab and not self.seeded(ip, st):
                    ip.emit('rngdraw', node, fr, 'draws from a generator that may be %s' % what, key=name)
            if self.takes and RS not in recv.lab and not set(BADRNG) & recv.lab:
                ip.emit('rngdraw', node, fr, 'draws from a generator that does not come from random_state', key=name)

    def ext_result(self, ip, name, a, v, node, fr, st):
        s = name.rsplit('.', 1)[-1]
        if name.startswith(CLOCKS) and s not in ('sleep', 'timedelta', 'datetime', 'date'):
            return v.addlab(frozenset([('clock',)]))
        if name in ('builtins.id', 'builtins.hash'):
            return v.addlab(frozenset([('ident',)]))
        if name in ('os.urandom', 'uuid.uuid4', 'uuid.uuid1', 'os.getpid') or name.startswith('secrets.'):
            return v.addlab(frozenset([('entropy',)]))
        if name in ('os.listdir', 'os.scandir', 'os.walk', 'glob.glob', 'glob.iglob'):
            return v.addlab(frozenset([('listdir',)]))
        if name in STRUCTURED:
            return strip(v, ('setorder',))
        return v

    def parallel(self, ip, o, x, node, fr, st):
        pass

    def call(self, ip, f, env, explicit, node, fr, st):
        if ip.task > 0:
            for p, v in env.items():
                if isinstance(v, V) and v.kind == 'rng' and v.top:
                    ip.emit('task', node, fr, 'a random generator (`%s` of %s) is used inside a parallel task' % (p, f.qual),
                            key=f.qual + ':' + p)

    def test(self, ip, v, node, fr, st):
        for l in (('clock',), ('ident',), ('entropy',)):
            if l in v.lab:
                ip.emit('branch', node, fr, 'a branch depends on %s' % BAD[l], key=BAD[l])


def collect(rep, ip, name, cfg=''):
    for e in ip.all_events():
        if e.rule in ('draw', 'seed', 'source', 'routine', 'rngdraw', 'task', 'branch'):
            rep.violation('%s:%s:%s' % (e.rule, e.func, e.key), '%s%s: %s' % (name, cfg, e.msg), where(ip, e), event_path(ip, e))
    ip.clear_events()


def result(rep, ip, key, what, v, st):
    rep.count('results checked')
    labs = ip.deep_labels(v, st, 8)
    for l, txt in BAD.items():
        if l in labs:
            rep.violation('result:%s:%s' % (key, l[0]), '%s depends on %s' % (what, txt), key)


def rs_value(v):
    """random_state: set (not None), anything else about it unknown"""
    return V(top=True, kind='any', lab=frozenset([RS]))


SKIP_MODS = ('tslearn.backend',)


def run(rep):
    hk = H()
    for mode in ('numpy', 'pytorch'):
        ip, cat = make(hk, mode=mode)
        ip.track_order = True
        ip.pins.append(SEED)
        heap0 = user_heap(ip.gheap, lambda p: E)
        heap0[SEED.id] = HObj('flag', None, {'v': const(False)})
        for q, en in sorted(cat.funcs.items()):
            if en.mod.startswith(SKIP_MODS):
                continue
            ip.clear_events()
            kw = {}
            for p in en.params:
                kw[p] = param_value(p, ip.default_of(en.func, p), en.opts.get(p), mode=mode, typ=en.types.get(p))
            hk.takes = 'random_state' in kw
            if hk.takes:
                kw['random_state'] = rs_value(kw['random_state'])
                rep.count('functions with random_state')
            r, st, ex = ip.run_function(obj(en.func), [], kw, heap0, node=en.func.node)
            rep.count('functions')
            if r is not None:
                result(rep, ip, q, 'the result of %s' % q, r, st)
            collect(rep, ip, q)
        if mode == 'pytorch':
            break
        for c in cat.estimators():
            L = Life(ip, cat, c, mode)
            rep.count('estimators')
            hk.takes = 'random_state' in L.hyper
            if hk.takes:
                rep.count('estimators with random_state')
                rep.sample('estimators with random_state', c.qual)
            for cfg in configs(L):
                vals = with_values(cfg, L)
                if hk.takes:
                    vals['random_state'] = rs_value(vals['random_state'])
                ip.clear_events()
                r, h, ex = L.construct(heap0, vals)
                if r is None:
                    continue
                ref = main_ref(r)
                cs = ' (%s)' % cfg_str(cfg)
                rr, st, ex = L.run('fit', r, h)
                collect(rep, ip, c.qual + '.fit', cs)
                rep.count('method runs')
                if st is None:
                    continue
                fh = st.heap
                for a, v in sorted(fh[ref.id].fields.items()):
                    if a not in L.hyper:
                        result(rep, ip, '%s.%s' % (c.qual, a), 'attribute %s of %s%s' % (a, c.qual, cs), v, st)
                # an inference call starts from an unseeded process
                fh = dict(fh)
                fh[SEED.id] = heap0[SEED.id]
                for m in L.queries() + [x for x in ('fit_transform', 'fit_predict') if L.has(x)]:
                    ip.clear_events()
                    rr, st, ex = L.run(m, r, fh)
                    rep.count('method runs')
                    collect(rep, ip, '%s.%s' % (c.qual, m), cs)
                    if st is not None:
                        result(rep, ip, '%s.%s' % (c.qual, m), 'the result of %s.%s%s' % (c.qual, m, cs), rr, st)
            ip.memo.clear()
    rep.rule = RULE
    rep.floor('functions', 80)
    rep.floor('functions with random_state', 5)
    rep.floor('estimators', 20)
    rep.floor('estimators with random_state', 6)
    rep.floor('method runs', 300)
