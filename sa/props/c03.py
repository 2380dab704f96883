"""C03: inference leaves the fitted model untouched.

Each estimator is constructed and fitted abstractly for every configuration of
its discrete hyper-parameters.  Every attribute of the fitted object then gets
an identity token, and everything it refers to an ownership mark.  Every
inference method (all public non-fit methods, properties and the save methods)
is executed from that state; on every exit, normal or exceptional, each
attribute must still hold its token, no attribute may have appeared, and no
in-place operation may have hit marked storage."""
from ..common import *

RULE = ('an inference method may not rebind, create, delete or modify in place any attribute of the fitted estimator '
        '(temporarily rebinding one is allowed if every exit restores it)')


class H(Hooks):
    main = None

    def write(self, ip, roots, node, fr, how, v):
        for r in sorted(str(r[1]) for r in roots if r[0] == 'fitted'):
            ip.emit('write', node, fr, '%s may modify the fitted attribute `%s`' % (how, r), key=r)

    def attr_store(self, ip, ref, h, name, v, node, fr):
        if ref == self.main and v.idt != ('fitted', name):
            ip.emit('store', node, fr, 'assigns `%s`' % name, key=name)
        return v


# a public method documented to change the object; not inference
SETTERS = {'set_weights', 'set_params', 'set_output', 'set_fit_request', 'set_predict_request', 'set_score_request'}


def run(rep):
    hk = H()
    ip, cat = make(hk)
    ip.mutating_methods = True
    base = user_heap(ip.gheap, lambda p: E)
    for c in cat.estimators():
        L = Life(ip, cat, c)
        q = c.qual
        rep.count('estimators')
        for cfg in configs(L):
            hk.main = None
            r, h, ex = L.construct(base, with_values(cfg, L))
            if r is None:
                continue
            ref = main_ref(r)
            heap, ex = fit_exits(L, r, h)
            if heap is None:
                rep.notes.append('fit of %s cannot complete with %s' % (q, cfg_str(cfg)))
                continue
            heap = retag(heap, ref, lambda a: ('fitted', a))
            f0 = heap[ref.id].fields
            hk.main = ref
            ip.clear_events()
            ms = [m for m in L.queries() + [x for x in SAVE_METHODS if L.has(x)] + L.props() if m not in SETTERS]
            for m in ms:
                rr, st, ex = L.run(m, r, heap)
                rep.count('inference runs')
                rep.sample('inference methods', q + '.' + m)
                evs = ip.all_events()
                exits = ([('returns', st.heap)] if st is not None else []) + \
                    [('raises %s' % ('an exception' if e == '*' else e), s.heap) for e, s in ex.items()]
                for how, hp in exits:
                    f1 = hp[ref.id].fields
                    for a in sorted(set(f0) | set(f1), key=str):
                        rep.count('exit obligations')
                        v = f1.get(a)
                        if a in f0 and v is not None and v.idt == f0[a].idt:
                            continue
                        if a not in f0 and v is not None and v.with_(c=v.c - {ABSENT}).bottom:
                            continue
                        e = next((e for e in evs if e.rule == 'store' and e.key == a), None)
                        rep.violation('%s.%s:%s' % (q, m, a), '%s.%s %s attribute `%s` of the fitted estimator when it %s (%s)%s'
                                      % (q, m, 'changes' if a in f0 else 'creates', a, how, cfg_str(cfg),
                                         '; ' + e.msg if e else ''),
                                      where(ip, e) if e else q, event_path(ip, e) if e else ())
                for e in evs:
                    if e.rule == 'write':
                        rep.violation('%s.%s:%s:inplace' % (q, m, e.key), '%s.%s (%s): %s' % (q, m, cfg_str(cfg), e.msg),
                                      where(ip, e), event_path(ip, e))
                ip.clear_events()
        ip.memo.clear()
    rep.count('functions reached', len(ip.stats['functions']))
    rep.rule = RULE
    rep.floor('estimators', 20)
    rep.floor('inference runs', 150)
    rep.floor('exit obligations', 3000)
