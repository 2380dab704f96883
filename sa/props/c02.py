"""C02: hyper-parameters are stored verbatim and never changed.

Every estimator is constructed abstractly with each hyper-parameter carrying an
identity token that any computation loses; after the constructor the attribute
of the same name must still carry it.  Then fit, every public method on the
unfitted and on the fitted object are executed for every configuration of the
discrete hyper-parameters, and on every exit - normal return and each
exceptional exit - every hyper-parameter attribute must still hold its token
and no in-place operation may have hit the object it refers to."""
from ..common import *

RULE = ('at every exit of every public method each hyper-parameter attribute is the object the user passed, and no '
        'in-place operation reached that object')


class H(Hooks):
    main = None

    def write(self, ip, roots, node, fr, how, v):
        for r in sorted(str(r[1]) for r in roots if r[0] == 'hyper'):
            ip.emit('write', node, fr, '%s may modify the object held by hyper-parameter `%s`' % (how, r), key=r)

    def attr_store(self, ip, ref, h, name, v, node, fr):
        if ref == self.main and name in self.hyper and v.idt != ('hyper', name):
            ip.emit('store', node, fr, 'assigns hyper-parameter `%s`' % name, key=name)
        return v


def own(p):
    return frozenset([('hyper', p)])


def idt(p):
    return ('hyper', p)


def run(rep):
    hk = H()
    ip, cat = make(hk)
    ip.mutating_methods = True
    base = user_heap(ip.gheap, own)
    ests = cat.estimators()
    for c in ests:
        L = Life(ip, cat, c)
        f = cat.init_func(c)
        rep.count('estimators')
        rep.sample('estimators', c.qual)
        hk.hyper = set(L.hyper)
        hk.main = None
        # 1. verbatim storage (all hyper-parameters unknown)
        vals = with_values({}, L, own=own, idt=idt)
        r, h, ex = L.construct(base, vals)
        if r is None:
            rep.violation('%s.__init__' % c.qual, 'the constructor of %s cannot complete' % c.qual, c.qual)
            continue
        ref = main_ref(r)
        fields = h[ref.id].fields
        for p in L.hyper:
            rep.count('constructor obligations')
            v = fields.get(p)
            if v is None or v.idt != idt(p):
                rep.violation('%s.__init__:%s' % (c.qual, p),
                              '%s.__init__ does not store parameter `%s` unmodified under its own name' % (c.qual, p),
                              '%s:%s in %s.__init__' % (ip.p.paths[c.mod], f.node.lineno if f else c.node.lineno, c.qual))
        ip.clear_events()
        for cfg in configs(L):
            vals = with_values(cfg, L, own=own, idt=idt)
            r, h, ex = L.construct(base, vals)
            if r is None:
                continue
            hk.main = main_ref(r)
            ip.clear_events()
            start = [('unfitted', h)]
            fitted = None
            ms = []
            if L.has('fit'):
                rr, st, ex = L.run('fit', r, h)
                check(rep, ip, L, 'fit', hk.main, st, ex, cfg)
                if st is not None:
                    fitted = st.heap
            for m in L.queries() + [x for x in ('fit_transform', 'fit_predict', 'to_json', 'to_hdf5', 'to_pickle')
                                    if L.has(x)] + (['fit'] if L.has('fit') else []):
                for heap in (h, fitted):
                    if heap is None:
                        continue
                    # the attributes must hold their tokens at entry (an earlier
                    # method that broke them has been reported already)
                    heap = retoken(heap, hk.main, vals)
                    rr, st, ex = L.run(m, r, heap)
                    check(rep, ip, L, m, hk.main, st, ex, cfg)
            ip.clear_events()
            hk.main = None
        ip.memo.clear()
    rep.count('functions reached', len(ip.stats['functions']))
    rep.rule = RULE
    rep.floor('estimators', 20)
    rep.floor('constructor obligations', 100)
    rep.floor('exit obligations', 3000)


def retoken(heap, ref, vals):
    h = heap.get(ref.id)
    f = dict(h.fields)
    f.update(vals)
    heap = dict(heap)
    heap[ref.id] = h.with_(fields=f)
    return heap


def check(rep, ip, L, m, ref, st, ex, cfg):
    evs = ip.all_events()
    exits = []
    if st is not None:
        exits.append(('returns', st.heap))
    for e, s in ex.items():
        exits.append(('raises %s' % ('an exception' if e == '*' else e), s.heap))
    q = L.cls.qual
    for how, heap in exits:
        h = heap.get(ref.id)
        if h is None:
            continue
        for p in L.hyper:
            rep.count('exit obligations')
            v = h.fields.get(p)
            if v is None or v.idt != ('hyper', p):
                e = next((e for e in evs if e.rule == 'store' and e.key == p), None)
                rep.violation('%s.%s:%s' % (q, m, p),
                              '%s.%s leaves hyper-parameter `%s` changed when it %s (%s)%s'
                              % (q, m, p, how, cfg_str(cfg), '; ' + e.msg if e else ''),
                              where(ip, e) if e else q, event_path(ip, e) if e else ())
    for e in evs:
        if e.rule == 'write':
            rep.violation('%s.%s:%s:inplace' % (q, m, e.key), '%s.%s (%s): %s' % (q, m, cfg_str(cfg), e.msg), where(ip, e),
                          event_path(ip, e))
    ip.clear_events()
