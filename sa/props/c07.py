"""C07: a saved model keeps everything inference needs.

For every estimator that has to_json / to_hdf5 / to_pickle and every
configuration of its discrete options, the object is constructed and fitted
abstractly; every learned attribute carries the label of its name and every
hyper-parameter the label of its name.  Then each to_<format> is executed: a
fitted model must be able to reach the end of it and must not be able to report
NotFittedError.  The dictionary handed to json.dump / pickle.dump / hdftools is
captured, from_<format> is executed on it, and every inference method of the
class is executed on the object it returns: no attribute the original object
had may be missing, NotFittedError must not be raised, and each attribute read
(and each hyper-parameter) must carry the label of the same attribute of the
saved object, i.e. have been restored from it."""
from ..common import *
from ..ext import deep_copy

RULE = ('a fitted model reaches the end of to_<format>; on the object from_<format> builds from the captured dictionary, '
        'inference finds every attribute, computed from the attribute of the same name')

STORE = Ref(('c07', 'file'))
KERAS = frozenset([('keras',)])
FORMATS = ('json', 'hdf5', 'pickle')


def unserialisable(ip, v, st, seen=None):
    """a reachable object no JSON encoder accepts: program or external instance"""
    seen = seen if seen is not None else set()
    for o in v.o:
        if isinstance(o, Ref):
            if o.id in seen:
                continue
            seen.add(o.id)
            h = ip.hget(st, o)
            if h is None:
                continue
            if h.kind == 'inst' and not v.c and not v.top and len(v.o) == 1:
                return 'an instance of %s' % getattr(h.cls, 'name', '?')
            if h.kind in ('list', 'dict', 'tuple'):
                for k, x in h.fields.items():
                    r = unserialisable(ip, x, st, seen) if isinstance(x, V) else None
                    if r:
                        return '%s (under key %r)' % (r, k) if isinstance(k, str) else r
        elif isinstance(o, (Func, Cls)) and not v.c and not v.top and len(v.o) == 1:
            return 'a %s object' % type(o).__name__
    return None


class H(Hooks):
    cls = None

    def save(self, ip, v, node, fr, st):
        ip.hset(st, STORE, HObj('flag', None, {'v': v}))
        self.saved += 1

    def ext_call(self, ip, name, a, node, fr, st):
        if name in ('json.dump', 'json.dumps', 'pickle.dump', 'pickle.dumps') and a.pos:
            if name.startswith('json'):
                r = unserialisable(ip, a.pos[0], st)
                if r:
                    ip.emit('json', node, fr, 'json cannot encode %s' % r, key=r)
            self.save(ip, a.pos[0], node, fr, st)

    def ext_result(self, ip, name, a, v, node, fr, st):
        if name in ('json.load', 'json.loads', 'pickle.load', 'pickle.loads'):
            h = ip.hget(st, STORE)
            if h is not None and not h.fields['v'].bottom:
                return deep_copy(ip, h.fields['v'], st, node, fr)
        if name.startswith('keras.'):
            return v.addlab(KERAS)
        if name == 'builtins.callable' and a.pos and a.pos[0].top and not a.pos[0].o and any(l[0] == 'att' for l in a.pos[0].lab):
            # a learned attribute of unknown kind is data unless it is a keras model
            return const(KERAS <= a.pos[0].lab)
        return v

    def call(self, ip, f, env, explicit, node, fr, st):
        if f.mod.startswith('tslearn.hdftools') and f.name == 'save_dict':
            self.save(ip, env.get('d', TOP), node, fr, st)

    def func_result(self, ip, f, env, v, node, fr):
        return v

    def attr_load(self, ip, ref, h, name, v, node, fr):
        if h.cls == self.cls:
            # memoised: depends on nothing but the value read
            konst = v.c if not v.top and not v.o else None
            lab = set(v.lab)
            for o in v.o:
                g = ip.hget(ip.cur_st, o) if isinstance(o, Ref) else None
                if g is not None:
                    lab |= g.elem.lab if g.elem is not None else set()
                    for x in g.fields.values():
                        lab |= x.lab if isinstance(x, V) else set()
            ip.emit('read', node, fr, name, key=(ref.id, name, ('att', name) in lab, konst, any(l[0] in ('att', 'hp') for l in lab)))

    def same_const(self, name, konst):
        w = self.learned.get(name)
        return w is not None and konst and konst <= w.c

    def attr_missing(self, ip, ref, h, name, node, fr, maybe):
        if h is not None and isinstance(h.cls, Cls) and not maybe:
            ip.emit('missing', node, fr, 'reads attribute `%s` of %s, which the model does not have' % (name, h.cls.name),
                    key=(h.cls.qual, name))

def lab_deep(heap, ref, keep, lab_of):
    """every attribute not in `keep` carries its label; ABSENT is dropped (the saved object is one that has it)"""
    h = heap[ref.id]
    f = {}
    for a, v in h.fields.items():
        if v.with_(c=v.c - {ABSENT}).bottom:
            continue
        f[a] = v.with_(c=v.c - {ABSENT})
        if a not in keep:
            f[a] = f[a].addlab(frozenset([lab_of(a)]))
            for o in f[a].o:
                g = heap.get(o.id) if isinstance(o, Ref) else None
                if g is not None:
                    heap = dict(heap)
                    inst = g.kind == 'inst'
                    heap[o.id] = g.with_(fields={k: ((x.with_(c=x.c - {ABSENT}) if inst else x).addlab(frozenset([lab_of(a)]))
                                                     if isinstance(x, V) else x)
                                                 for k, x in g.fields.items()
                                                 if not (inst and isinstance(x, V) and x.with_(c=x.c - {ABSENT}).bottom)},
                                         elem=g.elem.addlab(frozenset([lab_of(a)])) if g.elem is not None else None)
    heap = dict(heap)
    heap[ref.id] = h.with_(fields=f)
    return heap


# (the radius queries inherited from sklearn reject time series, before and after loading)
SKIP = {'set_weights', 'set_params', 'set_output', 'radius_neighbors', 'radius_neighbors_graph'}


class HH(H):
    """hdf5: the group read back is the dictionary written"""

    def func_result(self, ip, f, env, v, node, fr):
        if f.mod.startswith('tslearn.hdftools') and f.name == 'load_dict' and self.h5 is not None:
            return self.h5
        return v


def run(rep):
    hk = HH()
    hk.h5 = None
    hk.saved = 0
    hk.learned = {}
    ip, cat = make(hk)
    ip.unroll_all = True
    ip.pins.append(STORE)
    base = user_heap(ip.gheap, lambda p: E)
    base[STORE.id] = HObj('flag', None, {'v': BOT})
    for c in cat.estimators():
        L = Life(ip, cat, c)
        fmts = [f for f in FORMATS if L.has('to_' + f)]
        if not fmts:
            continue
        q = c.qual
        rep.count('estimators that can be saved')
        hk.cls = c
        for cfg in configs(L):
            vals = with_values(cfg, L, lab=lambda p: frozenset([('hp', p)]))
            r, h, ex = L.construct(base, vals)
            if r is None:
                continue
            ref = main_ref(r)
            fh, ex = fit_exits(L, r, h)
            if fh is None:
                continue
            cs = '(%s)' % cfg_str(cfg)
            fh = lab_deep(fh, ref, set(L.hyper), lambda a: ('att', a))
            orig = fh[ref.id].fields
            hk.learned = {a: v for a, v in orig.items() if a not in L.hyper}
            reads = {}
            miss0 = set()
            for m in L.queries():
                if m in SKIP:
                    continue
                ip.clear_events()
                rr, st, ex = L.run(m, r, fh)
                reads[m] = ({e.key[1] for e in ip.all_events() if e.rule == 'read' and e.key[0] == ref.id and e.key[2]}, st is not None, set(ex))
                miss0 |= {e.key for e in ip.all_events() if e.rule == 'missing'}
            for fmt in fmts:
                ip.clear_events()
                hk.saved = 0
                rr, st, ex = L.run('to_' + fmt, r, fh)
                rep.count('saves analysed')
                evs = ip.all_events()
                if st is None and set(ex) == {'NotImplementedError'}:
                    rep.count('formats the class declares unsupported')
                    continue
                for e in evs:
                    if e.rule == 'missing' and e.key not in miss0:
                        rep.violation('%s.to_%s:%s' % (q, fmt, e.key[1]), '%s.to_%s %s: %s' % (q, fmt, cs, e.msg), where(ip, e),
                                      event_path(ip, e))
                    elif e.rule == 'json' and fmt == 'json':
                        rep.violation('%s.to_json:%s' % (q, e.key), '%s.to_json %s: %s' % (q, cs, e.msg), where(ip, e),
                                      event_path(ip, e))
                if 'NotFittedError' in ex:
                    rep.violation('%s.to_%s:notfitted' % (q, fmt), '%s.to_%s %s can raise NotFittedError on a fitted model'
                                  % (q, fmt, cs), q)
                if st is None:
                    rep.violation('%s.to_%s:never' % (q, fmt), '%s.to_%s %s cannot succeed on a fitted model (raises %s)'
                                  % (q, fmt, cs, ', '.join(sorted(ex)) or 'nothing'), q)
                    continue
                if st.heap[STORE.id].fields['v'].bottom:
                    raise AnalysisBroken('%s.to_%s: no dictionary was captured' % (q, fmt))
                # ---- load
                heap = st.heap
                hk.h5 = heap[STORE.id].fields['v'] if fmt == 'hdf5' else None
                f = cat.method(c, 'from_' + fmt)
                ip.clear_events()
                if f is None:
                    rep.violation('%s.from_%s' % (q, fmt), '%s has to_%s and no from_%s' % (q, fmt, fmt), q)
                    continue
                memo = ip.memo
                ip.memo = {} if fmt == 'hdf5' else memo
                r2, st2, ex2 = ip.run_function(obj(T('bound', obj(c), f)), [TOP], {}, heap, node=f.node)
                ip.memo = memo
                hk.h5 = None
                rep.count('loads analysed')
                ref2 = main_ref(r2) if r2 is not None else None
                h2 = st2.heap.get(ref2.id) if ref2 is not None else None
                if h2 is None or h2.cls != c:
                    rep.violation('%s.from_%s:never' % (q, fmt), '%s.from_%s %s does not return an instance (raises %s)'
                                  % (q, fmt, cs, ', '.join(sorted(ex2))), q)
                    continue
                for p in L.hyper:
                    v = h2.fields.get(p)
                    o = orig.get(p)
                    rep.count('hyper-parameter obligations')
                    if v is None or ('hp', p) not in v.lab and not (not v.top and not v.o and v.c <= o.c):
                        rep.violation('%s.from_%s:hp:%s' % (q, fmt, p), '%s.from_%s %s does not restore hyper-parameter `%s` '
                                      'from the saved one' % (q, fmt, cs, p), q)
                    elif {l[1] for l in v.lab if l[0] == 'hp'} - {p}:
                        pass
                for m, (need, ok, exits) in sorted(reads.items()):
                    if not need or not ok:
                        continue
                    ip.clear_events()
                    rr, st3, ex3 = L.run(m, r2, st2.heap)
                    rep.count('inference runs on loaded models')
                    for e in ip.all_events():
                        if e.rule == 'missing' and e.key not in miss0:
                            rep.violation('%s.%s:%s:%s' % (q, m, fmt, e.key[1]), '%s.%s after from_%s %s: %s' %
                                          (q, m, fmt, cs, e.msg), where(ip, e), event_path(ip, e))
                        elif e.rule == 'read' and e.key[0] == ref2.id and e.key[1] in hk.learned and not e.key[4] and \
                                not hk.same_const(e.key[1], e.key[3]):
                            rep.violation('%s.%s:%s:%s:foreign' % (q, m, fmt, e.key[1]), '%s.%s after from_%s %s: reads attribute '
                                          '`%s`, which loading does not restore from the saved `%s`' %
                                          (q, m, fmt, cs, e.key[1], e.key[1]), where(ip, e), event_path(ip, e))
                    for a in sorted(need):
                        v = h2.fields.get(a)
                        if v is None or v.with_(c=v.c - {ABSENT}).bottom:
                            rep.violation('%s.%s:%s:%s:lost' % (q, m, fmt, a), '%s.%s after from_%s %s: works without attribute `%s`, '
                                          'which it uses on the fitted model and which is not restored' % (q, m, fmt, cs, a), q)
                    if st3 is None and 'NotFittedError' in ex3:
                        rep.violation('%s.%s:%s:notfitted' % (q, m, fmt), '%s.%s after from_%s %s raises NotFittedError'
                                      % (q, m, fmt, cs), q)
                    elif st3 is None:
                        rep.violation('%s.%s:%s:never' % (q, m, fmt), '%s.%s after from_%s %s can no longer answer (raises %s)'
                                      % (q, m, fmt, cs, ', '.join(sorted(ex3))), q)
        ip.memo.clear()
    rep.rule = RULE
    rep.floor('estimators that can be saved', 12)
    rep.floor('saves analysed', 80)
    rep.floor('inference runs on loaded models', 150)
